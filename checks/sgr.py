"""T01, T02: escape sequences and their closing counterparts."""
import re

from hypothesis import strategies as st

from vlib import term
from vlib.core import check, Violation
from vlib.lib import load
from vlib.term import apply_sgr, DEFAULT
from vlib.view import need, style_str

ATTRS = [1, 2, 3, 4, 5, 6, 7, 8, 9, 21, 53]
OFF = [22, 23, 24, 25, 27, 28, 29, 39, 49, 55]
NAMES = {'bold': 1, 'dim': 2, 'italic': 3, 'underlined': 4, 'blink_slow': 5, 'blink_fast': 6, 'inversed': 7, 'hidden': 8, 'crosslined': 9, 'double_underlined': 21, 'overlined': 53,
         'reset': 0, 'bold_dim_off': 22, 'italic_off': 23, 'underlined_off': 24, 'blink_off': 25, 'inversed_off': 27, 'hidden_off': 28, 'crosslined_off': 29, 'overlined_off': 55,
         'color_off': 39, 'bg_color_off': 49, 'gray': 90, 'bg_gray': 100,
         **{n: 30 + i for i, n in enumerate('black red green yellow blue magenta cyan white'.split())},
         **{'bg_' + n: 40 + i for i, n in enumerate('black red green yellow blue magenta cyan white'.split())},
         **{'hi_' + n: 91 + i for i, n in enumerate('red green yellow blue magenta cyan white'.split())},
         **{'bg_hi_' + n: 101 + i for i, n in enumerate('red green yellow blue magenta cyan white'.split())}}

_byte = st.one_of(st.integers(0, 255), st.sampled_from([0, 1, 4, 5, 7, 22, 38, 48, 255]))
_code = st.one_of(st.sampled_from(ATTRS), st.integers(30, 37), st.integers(40, 47), st.integers(90, 97), st.integers(100, 107))
_extended = st.one_of(st.tuples(st.sampled_from([38, 48]), st.just(5), _byte), st.tuples(st.sampled_from([38, 48]), st.just(2), _byte, _byte, _byte)).map(list)
_item = st.one_of(_code.map(lambda c: [c]), _code.map(lambda c: [c]), _extended, st.sampled_from(OFF).map(lambda c: [c]))
_params = st.lists(_item, max_size=5)
_text = st.text(st.characters(codec='utf-8', exclude_characters='\x1b', exclude_categories=['Cs']), max_size=6)


def style_of(params, state=DEFAULT):
    return apply_sgr(state, params) if params else state


@st.composite
def _args(draw):
    """Constructor arguments, in every accepted form, with the parameters they stand for."""
    out = []
    for item in draw(_params):
        k = draw(st.integers(0, 3))
        name = next((n for n, c in NAMES.items() if [c] == item), None)
        if k == 0 and name:
            out.append(['name', ''.join(draw(st.sampled_from([c.upper(), c.lower()])) for c in name), item])
        elif k == 1:
            out.append(['seq', '', item])
        else:
            out.append(['int', '', item])
    return out


def build(pt, args):
    res = []
    for kind, name, item in args:
        res += [name] if kind == 'name' else [pt.SequenceSGR(*item)] if kind == 'seq' else item
    return res


FIELDS = DEFAULT._fields
# turning one off takes the other with it
COUPLED = {'bold': ('bold', 'dim'), 'dim': ('bold', 'dim')}


def touched(params):
    """Fields that a list of parameters sets or resets, whatever the state is."""
    full = term.Style(('16', 99), ('16', 99), True, True, True, 9, 9, True, True, True, True)
    a, b = apply_sgr(DEFAULT, params), apply_sgr(full, params)
    out = {f for f in FIELDS if getattr(a, f) != getattr(DEFAULT, f) or getattr(b, f) != getattr(full, f)}
    return {g for f in out for g in COUPLED.get(f, (f,))}


@check('T01', lambda: st.fixed_dictionaries({'args': _args(), 'around': _params, 'text': _text}), quick=20000, thorough=600000,
       rule='random SGR parameters (codes, names, 256-color, RGB) applied on top of a random state, then closed; non-trivial: an extended color or two attributes, on top of a non-default state')
def t01(case, ctx):
    pt = load('pytermor')
    params = [p for _, _, item in case['args'] for p in item]
    span = pt.Span(*build(pt, case['args']))
    need(list(span.opening_seq.params) == params, lambda: f'opening parameters are {span.opening_seq.params}, expected {params}')
    for kind, name, item in case['args']:
        if kind == 'name':
            need(list(pt.Seqs.resolve(name).params) == item and getattr(pt.Seqs, name.upper()) is pt.Seqs.resolve(name), lambda: f'preset {name} is {pt.Seqs.resolve(name)!r}')
            preset = getattr(pt.Spans, name.upper(), None)
            need(preset == pt.Span(*item) if preset is not None else item[0] in [0, *OFF], lambda: f'preset {name} is {preset!r}')
    around = [p for item in case['around'] for p in item]
    state = style_of(around)
    got = span.wrap(case['text'])
    need(got == span(case['text']) and got == span.opening_str + case['text'] + span.closing_str, lambda: f'wrapping is inconsistent: {got!r}')
    for value in (None, 0, case['around']):
        text = '' if value is None else str(value)
        need(span.wrap(value) == span(value) == span.opening_str + text + span.closing_str, lambda: f'{value!r} is wrapped into {span.wrap(value)!r}')
    opening = f'\x1b[{";".join(map(str, params))}m' if params else ''
    need(got.startswith(opening + case['text']), lambda: f'{got!r} does not start with {opening + case["text"]!r}')
    scr = term.parse(got + '!', state)
    inside = style_of(params, state)
    cells = [c for r in scr.rows for c in r]
    n = len(case['text'].replace('\n', ''))
    need(all(s == inside for _, s in cells[:n]), lambda: f'text is not shown with {style_str(inside)}')
    after = cells[-1][1]
    full = touched(params) if params else set()
    want = state._replace(**{f: getattr(DEFAULT, f) for f in full})
    need(after == want, lambda: f'after closing {params} on top of {style_str(state)}: {style_str(after)}, expected {style_str(want)}')
    ctx.nontrivial(state != DEFAULT and (len(case['args']) >= 2 or any(len(i) > 1 for _, _, i in case['args'])))
    ctx.label('plain' if not params else 'extended' if any(len(i) > 1 for _, _, i in case['args']) else 'simple')


_ints = st.lists(st.one_of(st.integers(0, 110), st.just(0), st.integers(-3, 300), st.sampled_from([999, 1000, 1001, 65535, 10 ** 9])), max_size=5)


#: names that are no sequence, and values of other types
_BAD = ['', 'no_such_name', 'list_colors', 'LIST_ALL_COLORS', 'resolve', '__init__', '__class__', '31', 1.5, None, [1], {'a': 1}]


@check('T02', lambda: st.fixed_dictionaries({'a': _args(), 'b': _ints, 'c': _ints, 'bg': st.booleans(), 'rgb': st.tuples(*[st.integers(-2, 257)] * 3).map(list),
                                             'bad': st.one_of(st.sampled_from(_BAD), st.text('abcdefgx_ -0123456789', min_size=1, max_size=8).filter(lambda n: n.lower() not in NAMES)),
                                             'texts': st.lists(_text, min_size=2, max_size=2), 'hard': st.booleans(),
                                             'vary': st.tuples(st.integers(1, 8), st.sampled_from(['change', 'swap', 'drop', 'add', 'none']), st.integers(0, 400), st.integers(1, 3)).map(list)}), quick=20000, thorough=600000,
       rule='random parameter lists: assembling, adding, comparing, hashing sequences and explicitly composed pairs; non-trivial: two non-empty sequences')
def t02(case, ctx):
    pt = load('pytermor')
    S = pt.SequenceSGR
    ap = [p for _, _, item in case['a'] for p in item]
    clamp = lambda xs: [max(0, x) for x in xs]
    pa, pb, pc = ap, clamp(case['b']), clamp(case['c'])
    args = build(pt, case['a'])
    a, b, c = S(*args), S(*case['b']), S(*case['c'])
    need(all(list(x.params) == y.params for x, y in zip(args, build(pt, case['a'])) if isinstance(x, S)), 'an argument is changed by the sequence made of it')
    for kind, name, item in case['a']:
        need(kind != 'name' or list(getattr(pt.Seqs, name.upper()).params) == item, lambda: f'preset {name} is changed: {pt.Seqs.resolve(name)!r}')
    for s, p in ((a, pa), (b, pb), (c, pc)):
        need(list(s.params) == p, lambda: f'parameters {s.params}, expected {p}')
        text = '' if not p else '\x1b[m' if p == [0] else '\x1b[' + ';'.join(map(str, p)) + 'm'
        need(s.assemble() == text == str(s), lambda: f'{p} is assembled into {s.assemble()!r}')
        need(not p or re.fullmatch(S.regexp(), text), lambda: f'{text!r} does not match the pattern of sequences {S.regexp()!r}')
        need(len(s) == 0, lambda: f'{text!r} takes {len(s)} positions')
        need(s.is_color_extended == (len(p) > 2 and p[0] in (38, 48)), lambda: f'{text!r} is an extended color: {s.is_color_extended}')
        need(repr(s) == f'SGR[{";".join(map(str, p)) or "~"}]', lambda: f'{p} is displayed as {s!r}')
    ab = a + b
    need(list(ab.params) == pa + pb and list(a.params) == pa and list(b.params) == pb, lambda: f'{pa} + {pb} = {ab.params}, operands {a.params} {b.params}')
    need((a + b) + c == a + (b + c), 'addition is not associative')
    need(a + pt.NOOP_SEQ == a == pt.NOOP_SEQ + a and not pt.NOOP_SEQ.params, 'adding an empty sequence changes it')
    x = a
    x += b
    need(x == ab and list(a.params) == pa, 'in-place addition changes the operand')
    for s, p in ((a, pa), (b, pb), (c, pc)):
        for t, q in ((a, pa), (b, pb), (c, pc), (S(*p), p)):
            need((s == t) == (p == q), lambda: f'{p} == {q} is {s == t}')
            need(p != q or hash(s) == hash(t), lambda: f'equal sequences {p} have different hashes')
    if case.get('vary'):        # two sequences with a difference in one place
        times, how, at, delta = case['vary']
        p = (pa + pb + pc) * times
        q = list(p)
        at %= len(p) + 1
        if how == 'change' and at < len(q):
            q[at] += delta
        elif how == 'swap' and at:
            q[at - 1], q[-1] = q[-1], q[at - 1]
        elif how == 'drop':
            del q[at:at + delta]
        elif how == 'add':
            q[at:at] = q[:delta] or [delta]
        s, t = S(*p), S(*q)
        need((s == t) == (p == q) == (not s != t), lambda: f'{p} == {q} is {s == t}')
        need(p != q or hash(s) == hash(t), lambda: f'equal sequences {p} have different hashes')
        need(len({s, t}) == (1 if p == q else 2), lambda: f'a set of {p} and {q} has {len({s, t})} elements')
    r, g, bl = case['rgb']
    for make, want, vals in ((lambda: S.init_color_rgb(r, g, bl, case['bg']), [48 if case['bg'] else 38, 2, r, g, bl], (r, g, bl)),
                             (lambda: S.init_color_indexed(r, case['bg']), [48 if case['bg'] else 38, 5, r], (r,))):
        valid = all(0 <= v <= 255 for v in vals)
        try:
            got = make()
        except ValueError:
            need(not valid, lambda: f'color {vals} is refused')
        else:
            need(valid and list(got.params) == want, lambda: f'color {vals} gives {got.params}')
    bad = case['bad']
    try:
        res = S(*case['b'], bad)
    except Exception:
        pass
    else:
        raise Violation(f'{bad!r} is accepted as a parameter: {res.params}')
    sp = pt.Span.init_explicit(a, b, hard_reset_after=case['hard'])
    want = a.assemble() + case['texts'][0] + ('\x1b[m' if case['hard'] else b.assemble())
    need(sp.wrap(case['texts'][0]) == want, lambda: f'explicit pair {pa} / {pb} gives {sp.wrap(case["texts"][0])!r}, expected {want!r}')
    need((pt.Span(a) == pt.Span(c)) == (pa == pc), 'comparison of pairs')
    ctx.nontrivial(bool(pa) and bool(pb))
