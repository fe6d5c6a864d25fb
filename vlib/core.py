"""Check registry, Hypothesis driver, worker processes, replay files, evidence."""
import base64
import hashlib
import importlib
import json
import os
import pkgutil
import subprocess
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
QUICK_WORKERS = 6
THOROUGH_WORKERS = 8
SHRINK_SECONDS = 40
EXIT_ERROR = 3


class Violation(Exception):
    """The property is broken by this case."""


class _Stop(BaseException):
    """Ends a campaign early (shrinking budget used up)."""


CHECKS = {}


class Check:
    def __init__(self, id, fn, strategy, quick, thorough, rule, seeds=(), workers=None, known=(), setup=None, timing=False):
        self.id, self.fn, self.strategy = id, fn, strategy
        self.quick, self.thorough, self.rule = quick, thorough, rule
        self.seeds, self.workers, self.known, self.setup = list(seeds), workers, list(known), setup
        self.timing = timing        # depends on the scheduling of processes: only what happens again at once counts


def check(id, strategy, quick, thorough, rule, **kw):
    """Register ``fn(case, ctx)``.

    ``strategy``: zero-argument callable returning a Hypothesis strategy of JSON-able cases (bytes allowed).
    ``fn`` raises Violation (or anything, if the code under test raised it) when the property is broken.
    ``ctx.nontrivial()`` marks the case; ``ctx.label(..)`` classifies it.
    """
    def deco(fn):
        CHECKS[id] = Check(id, fn, strategy, quick, thorough, rule, **kw)
        return fn
    return deco


class Ctx:
    def __init__(self):
        self.labels = {}
        self.hashes = set()
        self.samples = []
        self.evaluations = 0
        self._nt = False

    def nontrivial(self, flag=True):
        if flag:
            self._nt = True

    def label(self, *names):
        for n in names:
            self.labels[n] = self.labels.get(n, 0) + 1

    def begin(self):
        self._nt = False

    def end(self, case):
        self.evaluations += 1
        if self._nt:
            h = hashlib.blake2b(dumps(case).encode(), digest_size=8).hexdigest()
            if h not in self.hashes:
                self.hashes.add(h)
                n = len(self.hashes)
                if n <= 2 or (n & (n - 1)) == 0:      # a spread of cases: 1st, 2nd, 4th, 8th...
                    self.samples.append(clip(case))


def enc(o):
    if isinstance(o, (bytes, bytearray)):
        return {'$b': base64.b16encode(bytes(o)).decode()}
    if isinstance(o, tuple):
        return {'$t': [enc(x) for x in o]}
    if isinstance(o, list):
        return [enc(x) for x in o]
    if isinstance(o, dict):
        return {k: enc(v) for k, v in o.items()}
    if isinstance(o, float):
        return {'$f': o.hex() if o == o and abs(o) != float('inf') else repr(o)}
    return o


def dec(o):
    if isinstance(o, dict):
        if set(o) == {'$b'}:
            return base64.b16decode(o['$b'])
        if set(o) == {'$t'}:
            return tuple(dec(x) for x in o['$t'])
        if set(o) == {'$f'}:
            return float.fromhex(o['$f']) if '0x' in o['$f'] else float(o['$f'])
        return {k: dec(v) for k, v in o.items()}
    if isinstance(o, list):
        return [dec(x) for x in o]
    return o


def dumps(case):
    return json.dumps(enc(case), sort_keys=True)


def clip(case):
    s = repr(case)
    return s if len(s) <= 600 else s[:600] + f'... ({len(s)} chars)'


def load_all():
    import checks
    for m in sorted(m.name for m in pkgutil.iter_modules(checks.__path__)):
        importlib.import_module('checks.' + m)


def env_seed():
    return int(os.environ.get('VERIF_SEED', '1') or '1')


def env_tier():
    t = os.environ.get('VERIF_TIER', 'quick')
    return t if t in ('quick', 'thorough') else 'quick'


# ------------------------------------------------------------------------------------------------ one case

def run_case(chk, case, ctx):
    """Returns None or a description of the violation."""
    from .app import HarnessError, Hang
    ctx.begin()
    try:
        chk.fn(case, ctx)
    except Violation as e:
        return f'{e}'
    except HarnessError:
        raise
    except Hang as e:
        return f'HANG {e}'
    except Exception as e:
        # an exception out of the code under test is a violation; one out of the harness is an error
        tb = e.__traceback__
        files = []
        while tb:
            files.append(os.path.realpath(tb.tb_frame.f_code.co_filename))
            tb = tb.tb_next
        from .app import REPO
        if any(f.startswith(os.path.realpath(REPO) + os.sep) for f in files):
            return 'unexpected exception from the code under test: ' + ''.join(
                traceback.format_exception_only(type(e), e)).strip() + f' (raised in {files[-1]})'
        # what the checks read does not have the form it has on every tree where the property holds
        if isinstance(e, (LookupError, ValueError, ArithmeticError, StopIteration)) or (isinstance(e, (TypeError, AttributeError)) and 'NoneType' in str(e)):
            return 'the result cannot be read: ' + ''.join(traceback.format_exception_only(type(e), e)).strip() + f' ({os.path.basename(files[-1])})'
        raise
    ctx.end(case)
    return None


# ------------------------------------------------------------------------------------------------ worker

def worker(check_id, seed, tier, index, count):
    import hypothesis
    from hypothesis import settings, HealthCheck, Phase, Verbosity
    from . import provider
    load_all()
    chk = CHECKS[check_id]
    ctx = Ctx()
    best = {'case': None, 'msg': None, 'size': None, 'since': None}

    def record(case, msg):
        size = (len(dumps(case)), dumps(case))
        if best['size'] is None or size < best['size']:
            best.update(case=case, msg=msg, size=size)
        if best['since'] is None:
            best['since'] = time.monotonic()

    # committed regression cases first (divided between workers)
    corpus = list(chk.seeds)
    cdir = os.path.join(VERIF, 'corpus', check_id)
    if os.path.isdir(cdir):
        for name in sorted(os.listdir(cdir)):
            with open(os.path.join(cdir, name)) as f:
                corpus.append(dec(json.load(f)['case']))
    for i, case in enumerate(corpus):
        if i % count == index:
            msg = run_case(chk, case, ctx)
            if msg:
                record(case, msg)
                break

    if best['case'] is None:
        total = int((chk.quick if tier == 'quick' else chk.thorough) * float(os.environ.get('VERIF_SCALE', 1)))
        mine = total // count + (1 if index < total % count else 0)

        def body(case):
            if best['since'] is not None and time.monotonic() - best['since'] > SHRINK_SECONDS:
                raise _Stop()
            msg = run_case(chk, case, ctx)
            if msg and chk.timing and not msg.startswith('HANG') and not any(run_case(chk, case, Ctx()) for _ in range(3)):
                ctx.label('not reproduced')
                msg = None
            if msg:
                record(case, msg)
                if msg.startswith('HANG'):
                    raise _Stop()
                raise AssertionError('violation')

        test = hypothesis.given(chk.strategy())(body)
        test = hypothesis.seed(seed * 1009 + index)(test)
        test = settings(backend=provider.NAME, max_examples=max(1, mine), database=None, deadline=None, derandomize=False,
                        suppress_health_check=list(HealthCheck), verbosity=Verbosity.quiet,
                        phases=(Phase.generate, Phase.shrink), report_multiple_bugs=False,
                        print_blob=False)(test)
        try:
            test()
        except _Stop:
            pass
        except AssertionError:
            if best['case'] is None:
                raise
        except hypothesis.errors.Flaky:
            if best['case'] is None:
                raise
    from . import app
    if best['case'] is not None and not best['msg'].startswith('HANG'):
        # confirm on fresh runs, outside Hypothesis; something that does not reproduce is not reported as a violation
        again = []
        while len(again) < 12 and not any(again[1:]):
            again.append(run_case(chk, best['case'], Ctx()))
        if not any(again) and chk.timing:
            best.update(case=None, msg=None)
        elif not any(again):
            raise app.HarnessError(f'failure does not reproduce: {best["msg"]} / {clip(best["case"])}')
        best['msg'] = next((m for m in again if m), None)
    res = dict(evaluations=ctx.evaluations, hashes=sorted(ctx.hashes), samples=ctx.samples, labels=ctx.labels,
               runs=app.runs, msg=best['msg'], case=enc(best['case']) if best['case'] is not None else None)
    sys.stdout.write('\n@@RESULT ' + json.dumps(res) + '\n')
    sys.stdout.flush()


# ------------------------------------------------------------------------------------------------ parent

def known_entries(check_id):
    """(description, probe case) of the findings recorded as known for this property."""
    out = []
    path = os.path.join(VERIF, 'known_findings.jsonl')
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                line = line.strip()
                if line.startswith('{'):
                    rec = json.loads(line)
                    if rec.get('status') == 'known' and rec['property'] == check_id:
                        out.append(rec)
    return out


def main_check(check_id):
    t0 = time.monotonic()
    seed, tier = env_seed(), env_tier()
    load_all()
    if check_id not in CHECKS:
        print(f'no such check: {check_id}')
        return EXIT_ERROR
    chk = CHECKS[check_id]
    n = int(os.environ.get('VERIF_WORKERS', 0)) or chk.workers or (QUICK_WORKERS if tier == 'quick' else THOROUGH_WORKERS)
    procs = []
    for i in range(n):
        env = dict(os.environ, PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1')
        procs.append(subprocess.Popen(
            [sys.executable, os.path.join(VERIF, 'run.py'), '--worker', check_id, str(seed), tier, str(i), str(n)],
            stdout=subprocess.PIPE, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, env=env, cwd=VERIF))
    # drain all pipes concurrently
    import threading
    outs = [b''] * n

    def drain(i):
        outs[i] = procs[i].communicate()[0]
    ths = [threading.Thread(target=drain, args=(i,)) for i in range(n)]
    [t.start() for t in ths]
    [t.join() for t in ths]
    results = []
    for i, p in enumerate(procs):
        text = outs[i].decode(errors='replace')
        pos = text.rfind('@@RESULT ')
        if p.returncode != 0 or pos < 0:
            if all(r is not None for r in results):
                print(f'harness error in worker {i} (exit {p.returncode}):\n{text[-2500:]}')
            results.append(None)
        else:
            results.append(json.loads(text[pos + 9:]))

    good = [r for r in results if r]
    failures = [r for r in good if r['msg'] is not None]
    hashes = set()
    labels = {}
    for r in good:
        hashes.update(r['hashes'])
        for k, v in r['labels'].items():
            labels[k] = labels.get(k, 0) + v
    samples = [s for r in good for s in r['samples']][:12]
    evidence = {
        'property': check_id, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': sum(r['evaluations'] for r in good) + len(failures),
            'distinct_nontrivial': len(hashes),
            'rule': chk.rule,
            'samples': samples,
            'application_runs': sum(r['runs'] for r in good),
            'classes': dict(sorted(labels.items())),
        },
        'wall_s': round(time.monotonic() - t0, 3),
        'violations': len(failures),
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', check_id + '.json'), 'w') as f:
        json.dump(evidence, f, indent=1, ensure_ascii=True)

    if failures:
        best = min(failures, key=lambda r: (len(json.dumps(r['case'])), json.dumps(r['case'])))
        case = dec(best['case'])
        rdir = os.path.join(VERIF, 'replays')
        os.makedirs(rdir, exist_ok=True)
        name = f'{check_id}-{hashlib.blake2b(dumps(case).encode(), digest_size=6).hexdigest()}.json'
        path = os.path.join(rdir, name)
        with open(path, 'w') as f:
            json.dump({'property': check_id, 'case': enc(case), 'message': best['msg'],
                       'replay': f'python3-vt /verif/run.py --replay {path}'}, f, indent=1)
        print(f'{check_id}: {best["msg"]}')
        print(f'case: {clip(case)}')
        print(f'VIOLATION property={check_id} replay={path}')
        return 1
    if len(good) != n:
        return EXIT_ERROR
    for rec in known_entries(check_id):
        print(f'KNOWN-FINDING: property={check_id} {rec["what"]}')
    c = evidence['coverage']
    print(f'{check_id} ok: {c["evaluations"]} cases, {c["distinct_nontrivial"]} distinct non-trivial, '
          f'{c["application_runs"]} application runs, {evidence["wall_s"]} s')
    return 0


def main_replay(path):
    load_all()
    with open(path) as f:
        rec = json.load(f)
    chk = CHECKS[rec['property']]
    msg = run_case(chk, dec(rec['case']), Ctx())
    if msg:
        print(f'{chk.id}: {msg}')
        print(f'VIOLATION property={chk.id} replay={path}')
        return 1
    print(f'{chk.id}: replayed case passes')
    return 0


def main():
    args = sys.argv[1:]
    if args and args[0] == '--worker':
        worker(args[1], int(args[2]), args[3], int(args[4]), int(args[5]))
        return 0
    if args and args[0] == '--replay':
        return main_replay(args[1])
    if args and args[0] == '--list':
        load_all()
        print('\n'.join(sorted(CHECKS)))
        return 0
    if len(args) != 1:
        print('usage: run.py CHECK | --replay FILE | --list')
        return EXIT_ERROR
    return main_check(args[0])
