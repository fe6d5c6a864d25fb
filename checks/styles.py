"""T05-T08: styles, renderers and styled text."""
import atexit
import contextlib
import io
import json
import os
import re
import subprocess
import sys

from hypothesis import strategies as st

from checks.colors import PALETTE_16, PALETTE_256, hexes, nearest, rgb
from vlib import term
from vlib.core import check, Violation
from vlib.lib import load
from vlib.term import DEFAULT
from vlib.view import need, style_str

FLAGS = ['blink', 'bold', 'crosslined', 'dim', 'double_underlined', 'inversed', 'italic', 'overlined', 'underlined']
NAMES_16 = 'black red green yellow blue magenta cyan white grey hi_red hi_green hi_yellow hi_blue hi_magenta hi_cyan hi_white'.split()

# ------------------------------------------------------------------------------------------------ cases

color = st.one_of(st.none(), st.none(),
                  st.integers(0, 15).map(lambda i: ['16', i]), st.integers(0, 15).map(lambda i: ['name', i]), st.integers(16, 255).map(lambda i: ['256', i]),
                  hexes.map(lambda h: ['rgb', h]), hexes.map(lambda h: ['int', h]), st.just(['noop', 0]))
flags = st.dictionaries(st.sampled_from(FLAGS), st.booleans(), max_size=4)
style = st.fixed_dictionaries({'fg': color, 'bg': color, 'flags': flags, 'class': st.sampled_from([None, None, 'c1', 'my-class'])})
PLAIN = st.characters(codec='utf-8', exclude_characters='\x1b#|ǝ<>&"', exclude_categories=['Cs'])
text = st.lists(st.one_of(st.text(PLAIN, max_size=5), st.sampled_from(['\n', '\r\n', '\r', '\u2028', '\x0b', ' '])), max_size=5).map(''.join)
setup = st.fixed_dictionaries({'force': st.sampled_from([True, True, True, False, None]), 'c256': st.booleans(), 'c16': st.booleans(), 'tty': st.booleans()})


def make_color(pt, spec):
    """What is passed to the constructor."""
    if spec is None:
        return None
    kind, v = spec
    if kind == '16':
        return getattr(pt.Colors, NAMES_16[v].upper())
    if kind == 'name':
        return NAMES_16[v].title()
    if kind == '256':
        return next(c for k, c in sorted(vars(pt.Colors).items()) if isinstance(c, pt.ColorIndexed256) and list(c.to_sgr().params) == [38, 5, v])
    return pt.ColorRGB(v) if kind == 'rgb' else v if kind == 'int' else pt.NOOP_COLOR


def color_hex(spec):
    if spec is None or spec[0] == 'noop':
        return None
    kind, v = spec
    r, g, b = PALETTE_16[v] if kind in ('16', 'name') else PALETTE_256[v] if kind == '256' else rgb(v)
    return r << 16 | g << 8 | b


def make_style(pt, spec, inherit=None):
    kw = {k: v for k, v in (('fg', make_color(pt, spec['fg'])), ('bg', make_color(pt, spec['bg'])), ('class_name', spec['class'])) if v is not None}
    if inherit is not None:
        kw['inherit'] = inherit
    return pt.Style(**kw, **spec['flags'])


def color_cells(spec, conf):
    """Acceptable terminal colors."""
    if spec is None or spec[0] == 'noop':
        return {None}
    kind, v = spec
    if kind in ('16', 'name'):
        return {('16', v)}
    h = rgb(color_hex(spec))
    if conf['c16']:
        return {('16', c) for c in nearest(PALETTE_16, h)}
    if kind == '256':
        return {('256', v)}
    if conf['c256']:
        return {('256', c) for c in nearest(PALETTE_256, h)}
    return {('rgb', *h)}


def cell_styles(spec, conf):
    """Acceptable terminal styles."""
    f = {k: bool(v) for k, v in spec['flags'].items()}
    under = {1, 2} if f.get('underlined') and f.get('double_underlined') else {2} if f.get('double_underlined') else {1} if f.get('underlined') else {0}
    return {term.Style(fg, bg, f.get('bold', False), f.get('dim', False), f.get('italic', False), u, 1 if f.get('blink') else 0, f.get('inversed', False), False,
                       f.get('crosslined', False), f.get('overlined', False))
            for fg in color_cells(spec['fg'], conf) for bg in color_cells(spec['bg'], conf) for u in under}


class _Tty(io.StringIO):
    def isatty(self):
        return True


@contextlib.contextmanager
def configured(pt, conf):
    render, out = load('pytermor.render'), sys.stdout
    sys.stdout = _Tty() if conf['tty'] else io.StringIO()
    render.SgrRenderer.set_up(conf['force'], conf['c256'], conf['c16'])
    try:
        yield render
    finally:
        render.SgrRenderer.set_up()
        render.RendererManager.set_up()
        sys.stdout = out


def allowed(conf):
    return conf['force'] is True or (conf['force'] is False and conf['tty'])


def check_cells(got, txt, styles, what):
    need(term.strip_sgr(got) == txt, lambda: f'{what}: text {txt!r} is rendered as {got!r}')
    scr = term.parse(got + '!')
    for row in scr.rows:
        for ch, s in row[:-1] if row is scr.rows[-1] else row:
            need(s in styles, lambda: f'{what}: {ch!r} in {got!r} is shown with {style_str(s)}, expected {[style_str(x) for x in styles]}')
    need(scr.rows[-1][-1][1] == DEFAULT, lambda: f'{what}: style {style_str(scr.rows[-1][-1][1])} is left after {got!r}')


@check('T05', lambda: st.fixed_dictionaries({'style': style, 'text': text, 'conf': setup}), quick=14000, thorough=500000,
       rule='random style (colors of every kind, attributes) x multi-line text x renderer settings; non-trivial: styled non-empty text with formatting allowed and two or more properties set')
def t05(case, ctx):
    pt = load('pytermor')
    spec, txt, conf = case['style'], case['text'], case['conf']
    with configured(pt, conf) as render:
        s = make_style(pt, spec)
        got = render.SgrRenderer.render(txt, s)
        for other in (pt.Text(txt, s).render(), str(pt.Text(txt, s)), s.render(txt), str(s.text(txt))):
            need(other == got, lambda: f'rendered differently: {got!r} and {other!r}')
    if not allowed(conf):
        need(got == txt, lambda: f'formatting is not allowed, but {txt!r} is rendered as {got!r}')
        ctx.label('not allowed')
        return
    check_cells(got, txt, cell_styles(spec, conf), f'{spec}')
    need(spec['fg'] or spec['bg'] or any(spec['flags'].values()) or got == txt, lambda: f'unstyled {txt!r} is rendered as {got!r}')
    n = sum(map(bool, (color_hex(spec['fg']) is not None, color_hex(spec['bg']) is not None, *spec['flags'].values())))
    ctx.nontrivial(n >= 2 and txt.strip() != '')
    ctx.label('16 colors' if conf['c16'] else '256 colors' if conf['c256'] else 'true color', 'multi-line' if len(txt.splitlines()) > 1 else 'one line')


# ------------------------------------------------------------------------------------------------ inheritance

_base = {'fg': None, 'bg': None, 'flags': {}, 'class': None}
_label = {'bold': True}
PRESETS = {'NOOP': _base, **{n + kind: {**_base, 'fg': ['16', c + 8 * (kind == '_ACCENT')], 'flags': _label if kind == '_LABEL' else {}}
                             for n, c in (('WARNING', 3), ('ERROR', 1)) for kind in ('', '_LABEL', '_ACCENT')},
           **{'CRITICAL' + kind: {**_base, 'fg': ['16', 15], 'bg': ['16', 9], 'flags': f} for kind, f in (('', {}), ('_LABEL', _label), ('_ACCENT', {'bold': True, 'blink': True}))}}


def preset(pt, name):
    return pt.NOOP_STYLE if name == 'NOOP' else load('pytermor.render').Styles.resolve(''.join(c.lower() if k % 2 else c for k, c in enumerate(name)))


@st.composite
def _styles_history(draw):
    ops, n = [], 0
    for _ in range(draw(st.integers(2, 9))):
        k = draw(st.sampled_from(['new', 'new', 'flip', 'fg', 'bg', 'autopick', 'flag', 'preset', 'bad'])) if n else draw(st.sampled_from(['new', 'new', 'preset']))
        if k == 'new':
            ops.append(['new', draw(st.one_of(st.integers(-1, n - 1), st.just(n - 1))), draw(style)])
            n += 1
        elif k == 'preset':
            ops.append([k, draw(st.sampled_from(sorted(PRESETS))), draw(style)])
            n += 1
        elif k == 'bad':
            ops.append([k, draw(st.integers(0, n - 1)), [draw(st.sampled_from(['fg', 'bg'])), draw(st.sampled_from(['', 'no_such_color', 'resolve', '__doc__', '#ff0000', '31']))]])
        elif k in ('fg', 'bg'):
            ops.append([k, draw(st.integers(0, n - 1)), draw(color)])
        elif k == 'flag':
            ops.append([k, draw(st.integers(0, n - 1)), [draw(st.sampled_from(FLAGS)), draw(st.booleans())]])
        else:
            ops.append([k, draw(st.integers(0, n - 1)), None])
    return ops


@check('T06', _styles_history, quick=14000, thorough=500000,
       rule='random histories of deriving styles from one another and changing them; non-trivial: a derived style is made from a derived style, with something set in both')
def t06(case, ctx):
    pt = load('pytermor')
    pool, model, depth = [], [], []
    for op, i, arg in case:
        if op in ('new', 'preset'):
            given = None if op == 'new' else PRESETS[i]
            parent = {'fg': given['fg'], 'bg': given['bg'], 'class': None, **{f: given['flags'].get(f) for f in FLAGS}} if given else model[i] if i >= 0 else None
            m = {'fg': arg['fg'], 'bg': arg['bg'], 'class': arg['class'], **{f: arg['flags'].get(f) for f in FLAGS}}
            if parent:
                m = {k: parent[k] if v is None else v for k, v in m.items()}
            pool.append(make_style(pt, arg, preset(pt, i) if given else pool[i] if i >= 0 else None))
            model.append(m)
            depth.append(0 if given else 1 + depth[i] if i >= 0 else 0)
            if depth[-1] >= 2 and arg['flags'] and any(parent[f] is not None for f in FLAGS):
                ctx.nontrivial()
        elif op == 'bad':
            try:
                setattr(pool[i], *arg)
            except (LookupError, ValueError):
                pass
            else:
                raise Violation(f'{arg[1]!r} is accepted as a color: {pool[i]!r}')
        elif op == 'flip':
            need(pool[i].flip() is pool[i], 'flipping gives another style')
            model[i]['fg'], model[i]['bg'] = model[i]['bg'] or ['noop', 0], model[i]['fg'] or ['noop', 0]
        elif op in ('fg', 'bg'):
            setattr(pool[i], op, make_color(pt, arg))
            model[i][op] = arg or ['noop', 0]
        elif op == 'flag':
            setattr(pool[i], *arg)
            model[i][arg[0]] = arg[1]
        else:
            bg = color_hex(model[i]['bg'])
            pool[i].autopick_fg()
            if bg is not None:
                v = max(rgb(bg)) / 255
                h = pool[i].fg.hex_value
                need(h is not None, 'no color is picked')
                need(max(rgb(h)) < 60 if v >= 0.5 else min(rgb(h)) > 160 if v <= 0.4 else True, lambda: f'text color picked for background {bg:06x} is {h:06x}')
                model[i]['fg'] = ['int', h]
        for n, (s, m) in enumerate(zip(pool, model)):
            got = {'fg': s.fg.hex_value, 'bg': s.bg.hex_value, 'class': s.class_name, **{f: bool(getattr(s, f)) for f in FLAGS}}
            want = look(m)
            need(got == want, lambda: f'style #{n} after {op} on #{i}: {({k: (got[k], want[k]) for k in got if got[k] != want[k]})} (actual, expected)')


    for name, spec in PRESETS.items():
        need(preset(pt, name) == make_style(pt, spec) and (name == 'NOOP' or preset(pt, name) is getattr(load('pytermor.render').Styles, name)), lambda: f'preset {name} is {preset(pt, name)!r}, expected {spec}')
    # styles that differ in anything are different ones
    fresh = [make_style(pt, {'fg': m['fg'], 'bg': m['bg'], 'class': m['class'], 'flags': {f: m[f] for f in FLAGS}}) for m in model]
    for n, (s, m) in enumerate(zip(pool, model)):
        need(s == fresh[n] and not s != fresh[n], lambda: f'style #{n} is not equal to one with the same properties {m}')
        need(s != 1 and s is not None and not s == s.fg, lambda: f'style #{n} is equal to something else')
        for k, (t, o) in enumerate(zip(pool, model)):
            if look(m) != look(o):
                need(s != t and not s == t, lambda: f'styles {m} and {o} are equal')
        text = repr(s)
        colors = [f'{name}={h:06x}' if (h := color_hex(m[name])) is not None else f'no {name}' for name in ('fg', 'bg')]
        need(re.fullmatch(r'Style\[(.*)\]', text) and text[6:-1].split(', ')[:2] == colors and sorted(text[6:-1].split(', ')[2:]) == sorted(f for f in FLAGS if m[f]), lambda: f'style {m} is described as {text}')


def look(m):
    return {'fg': color_hex(m['fg']), 'bg': color_hex(m['bg']), 'class': m['class'], **{f: bool(m[f]) for f in FLAGS}}


# ------------------------------------------------------------------------------------------------ styled text

value = st.one_of(text, text, st.integers(-3, 1000), st.sampled_from([0, 0.0, False, True, None, 1.5, '']))


@st.composite
def _text_history(draw):
    ops, n = [], 0
    for _ in range(draw(st.integers(1, 10))):
        k = draw(st.sampled_from(['new', 'append', 'append', 'prepend', 'add', 'radd', 'iadd', 'bad', 'format'])) if n else 'new'
        if k == 'new':
            ops.append(['new', 0, draw(value), draw(st.one_of(st.none(), style, st.integers(0, 15)))])
            n += 1
        elif k == 'format':
            ops.append([k, draw(st.integers(0, n - 1)), draw(st.sampled_from(['', '>9', '<7', '^8', '*>4', '.2', 's', 'd'])), None])
        elif k == 'bad':
            ops.append([k, draw(st.integers(0, n - 1)), draw(st.sampled_from(['append', 'prepend', '+='])), draw(st.sampled_from([1, None, 2.5]))])
        else:
            other = draw(st.one_of(st.integers(0, n - 1), text)) if k != 'radd' else draw(text)
            ops.append([k, draw(st.integers(0, n - 1)), other, None])
    return {'ops': ops, 'spec': draw(st.sampled_from(['', '>9', '<7', '^8', '*>4', '.2', 's']))}


@check('T07', _text_history, quick=12000, thorough=400000,
       rule='random histories of building styled texts out of one another; non-trivial: a text is added to another one (or itself) and changed afterwards')
def t07(case, ctx):
    pt = load('pytermor')
    conf = {'force': True, 'c256': False, 'c16': False, 'tty': False}
    plain = {'fg': None, 'bg': None, 'flags': {}, 'class': None}
    pool, model, shared = [], [], set()
    with configured(pt, conf):
        for op, i, arg, sty in case['ops']:
            if op == 'new':
                spec = plain if sty is None else {**plain, 'fg': ['16', sty]} if isinstance(sty, int) else sty
                pool.append(pt.Text(arg, sty if sty is None else NAMES_16[sty] if isinstance(sty, int) else make_style(pt, sty)))
                model.append([('' if arg is None else str(arg), spec)])
            elif op == 'format':
                try:
                    got = format(pool[i], arg)
                except RuntimeError:
                    need(len(model[i]) > 1, lambda: f'{model[i]} cannot be formatted')
                except ValueError:
                    need(arg == 'd', lambda: f'{model[i]} cannot be formatted by {arg!r}')
                else:
                    need(arg != 'd' and len(model[i]) == 1, lambda: f'{model[i]} is formatted by {arg!r} as {got!r}')
                    check_runs(got, [(format(model[i][0][0], arg), model[i][0][1])], conf)
            elif op == 'bad':
                try:
                    if arg == '+=':
                        pool[i] += sty
                    else:
                        getattr(pool[i], arg)(sty)
                except TypeError:
                    pass
                else:
                    raise Violation(f'{sty!r} is added to a text')
            else:
                isref = isinstance(arg, int)
                other, parts = (pool[arg], list(model[arg])) if isref else (arg, [(arg, plain)])
                if i in shared:
                    ctx.nontrivial()
                shared |= {i, arg} if isref else set()
                if op == 'append':
                    pool[i].append(other)
                elif op == 'prepend':
                    pool[i].prepend(other)
                elif op == 'iadd':
                    pool[i] += other
                elif op == 'add':
                    pool[i] = pool[i] + other
                else:
                    pool[i] = other + pool[i]
                model[i] = parts + model[i] if op in ('prepend', 'radd') else model[i] + parts
            for n, (t, m) in enumerate(zip(pool, model)):
                raw = ''.join(x for x, _ in m)
                need(t.raw() == raw, lambda: f'text #{n} after {op} on #{i} is {t.raw()!r}, expected {raw!r}')
                need(len(t) == len(raw), lambda: f'length of {raw!r} is {len(t)}')
        for t in pool:
            before = str(t)
            copy = pt.Text(t)
            need(str(copy) == before, lambda: f'a text made of {before!r} is {str(copy)!r}')
            copy.append('x')
            copy.prepend('y')
            need(str(t) == before and str(copy) == f'y{before}x', lambda: f'a text made of {before!r} and continued is {str(copy)!r}, the former one is {str(t)!r}')
        for t, m in zip(pool, model):
            got = str(t)
            need(got == t.render(), 'rendered differently')
            check_runs(got, m, conf)
        for t, m in zip(pool, model):
            if len(m) == 1:
                for spec in (case['spec'], '>12', case['spec'], ''):
                    check_runs(format(t, spec), [(format(m[0][0], spec), m[0][1])], conf)
                check_runs(str(t), m, conf)


def check_runs(got, runs, conf):
    raw = ''.join(x for x, _ in runs)
    need(term.strip_sgr(got) == raw, lambda: f'{raw!r} is rendered as {got!r}')
    cells = [c for row in term.parse(got).rows for c in row]
    want = [(ch, sty) for x, sty in runs for ch in x if ch != '\n']
    for k, ((ch, s), (_, spec)) in enumerate(zip(cells, want)):
        ok = cell_styles(spec, conf)
        need(s in ok, lambda: f'character {k} of {raw!r} is shown with {style_str(s)}, expected {[style_str(x) for x in ok]}: {got!r}')
    need(term.parse(got).final_style == DEFAULT, lambda: f'style is left after {got!r}')


# ------------------------------------------------------------------------------------------------ other formats

TMUX_COLORS = 'black red green yellow blue magenta cyan white'.split()
TMUX_ON = {'bold': 'bold', 'dim': 'dim', 'italics': 'italic', 'reverse': 'inverse', 'hidden': 'hidden', 'strikethrough': 'crossed', 'overline': 'overlined'}


def tmux_state(state, decl):
    for tok in re.split('[ ,]+', decl):
        if tok == 'default':
            state = DEFAULT
        elif tok[:3] in ('fg=', 'bg='):
            v = tok[3:]
            if v == 'default':
                c = None
            elif v.startswith('#'):
                c = ('rgb', *bytes.fromhex(v[1:]))
            elif re.fullmatch(r'colou?r\d+', v):
                c = ('256', int(v.split('r')[-1]))
            elif v.removeprefix('bright') in TMUX_COLORS:
                c = ('16', TMUX_COLORS.index(v.removeprefix('bright')) + (8 if v.startswith('bright') else 0))
            else:
                raise Violation(f'unknown tmux color {v!r}')
            state = state._replace(**{tok[:2]: c})
        else:
            on, name = not tok.startswith('no'), tok.removeprefix('no')
            if name in TMUX_ON:
                state = state._replace(**{TMUX_ON[name]: on})
            elif name == 'blink':
                state = state._replace(blink=int(on))
            elif name in ('underscore', 'double-underscore'):
                state = state._replace(underline=(2 if name[0] == 'd' else 1) if on else 0)
            else:
                raise Violation(f'unknown tmux style {tok!r}')
    return state


_others = []


def elsewhere(spec, txt):
    """The HTML output of other processes, where sets are ordered differently."""
    if not _others:
        for seed in '12':
            _others.append(subprocess.Popen([sys.executable, '-c', 'from checks.styles import serve; serve()'], stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True, encoding='ascii',
                                            cwd=os.path.dirname(os.path.dirname(os.path.abspath(__file__))), env=dict(os.environ, PYTHONHASHSEED=seed, PYTHONDONTWRITEBYTECODE='1')))
            atexit.register(_others[-1].kill)
    for p in _others:
        p.stdin.write(json.dumps([spec, txt]) + '\n')
        p.stdin.flush()
    return [json.loads(p.stdout.readline() or 'null') for p in _others]


def serve():
    pt = load('pytermor')
    render = load('pytermor.render')
    for line in sys.stdin:
        spec, txt = json.loads(line)
        print(json.dumps(render.HtmlRenderer.render(txt, make_style(pt, spec))), flush=True)


@check('T08', lambda: st.fixed_dictionaries({'style': style, 'text': text, 'conf': setup}), quick=12000, thorough=400000,
       rule='random style x text x settings through the plain, debug, tmux and HTML formats; non-trivial: two or more properties set on non-empty text')
def t08(case, ctx):
    pt = load('pytermor')
    spec, txt, conf = case['style'], case['text'], case['conf']
    with configured(pt, conf) as render:
        s = make_style(pt, spec)
        got = {}
        for name in ('NoOpRenderer', 'DebugRenderer', 'TmuxRenderer', 'HtmlRenderer'):
            r = getattr(render, name)
            got[name] = r.render(txt, s)
            render.RendererManager.set_up(r)
            for v in (0, 1.5, False, [], ValueError(txt)):
                need(r.render(v, s) == r.render(str(v), s), lambda: f'{name}: {v!r} is rendered as {r.render(v, s)!r}')
            need(pt.Text(txt, s).render() == got[name] == s.render(txt) or name == 'HtmlRenderer', lambda: f'{name}: rendered differently')
    need(got['NoOpRenderer'] == txt, lambda: f'plain format changes {txt!r} into {got["NoOpRenderer"]!r}')
    styles = cell_styles(spec, conf)
    dbg = got['DebugRenderer']
    need('\x1b' not in dbg, lambda: f'escape sequences in the debug format: {dbg!r}')
    check_cells(re.sub(r'\|ǝ([0-9;]*)\|', '\x1b[\\1m', dbg), txt, styles, f'debug format of {spec}')

    tm = got['TmuxRenderer']
    if not allowed(conf):
        need(tm == txt, lambda: f'formatting is not allowed, but {txt!r} is rendered as {tm!r} for tmux')
    else:
        need(re.sub(r'#\[[^]]*\]', '', tm) == txt, lambda: f'{txt!r} is rendered as {tm!r} for tmux')
        state = DEFAULT
        for m in re.finditer(r'#\[([^]]*)\]|([^#]+)', tm):
            if m.group(1) is not None:
                state = tmux_state(state, m.group(1))
            else:
                need(state in styles, lambda: f'{m.group()!r} in {tm!r} is shown with {style_str(state)}, expected {[style_str(x) for x in styles]}')
        need(state == DEFAULT, lambda: f'style {style_str(state)} is left after {tm!r}')

    if sum(map(bool, spec['flags'].values())) >= 2:
        need(elsewhere(spec, txt) == [got['HtmlRenderer']] * 2, lambda: f'HTML of {spec} is different in every run: {got["HtmlRenderer"]!r}, {elsewhere(spec, txt)}')
    m = re.fullmatch(r'<span(?: class="([^"]*)")? style="([^"]*)">(.*)</span>', got['HtmlRenderer'], re.S)
    need(m, lambda: f'malformed HTML {got["HtmlRenderer"]!r}')
    need(m.group(1) == spec['class'] and m.group(3) == txt, lambda: f'class or text is wrong in {got["HtmlRenderer"]!r}')
    css = {k.strip(): set(v.split()) for k, _, v in (d.partition(':') for d in m.group(2).split(';') if d.strip())}
    f = {k for k, v in spec['flags'].items() if v}
    fg, bg = (color_hex(spec[k]) for k in ('fg', 'bg'))
    if 'inversed' in f:
        fg, bg = bg, fg
    want = {'color': fg is not None and {f'#{fg:06x}'}, 'background-color': bg is not None and {f'#{bg:06x}'}, 'font-weight': 'bold' in f and {'700'}, 'font-style': 'italic' in f and {'italic'},
            'text-decoration': {w for k, ws in (('underlined', ['underline']), ('double_underlined', ['underline', 'double']), ('overlined', ['overline']), ('crosslined', ['line-through'])) if k in f
                                for w in ws}}
    for k, v in want.items():
        need(css.get(k, set()) == (v or set()), lambda: f'{k} of {spec} is {css.get(k)} in {got["HtmlRenderer"]!r}')
    need(('filter' in css) == ('dim' in f) and ('border' in css) == ('blink' in f), lambda: f'dim or blink of {spec} is wrong in {got["HtmlRenderer"]!r}')
    ctx.nontrivial(bool(txt.strip()) and sum([fg is not None, bg is not None, len(f)]) >= 2)
