"""Plants bugs.  python3 plant.py gen|validate|hunt|list [ID...]

gen       writes ../seeded/<id>/ (patch.diff, demo.sh, demo.py, meta.json) from the entries of plants.py
validate  in a copy of /repo bind-mounted over it: the patch applies, builds, passes the stable tests, and demo.sh tells it from the unchanged tree
hunt      runs the check of the property (or ALL with --all) against a patched copy
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
SEEDED = os.path.join(ROOT, 'seeded')
REPO = '/repo'

DEMO_HEAD = '''import os, re, subprocess, sys, tempfile
sys.dont_write_bytecode = True
sys.path.insert(0, os.getcwd())


def run(*argv, stdin=b'', columns='80'):
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONUTF8='1', COLUMNS=columns, PYTHONPATH=os.getcwd())
    return subprocess.run([sys.executable, '-m', 'kolombos', *argv], input=stdin, capture_output=True, env=env, timeout=100)


def rows(*argv, **kw):
    """Lines of the output without formatting and the final blank line."""
    return plain(run(*argv, **kw).stdout).split('\\n')[:-2]


def plain(out):
    return re.sub('\\x1b\\\\[[0-9;]*m', '', out.decode('utf-8'))


'''


def load():
    ns = {}
    with open(os.path.join(HERE, 'plants.py')) as f:
        exec(f.read(), ns)
    return ns['BUGS']


def copy():
    d = tempfile.mkdtemp(prefix='plant', dir='/tmp')
    subprocess.run(['cp', '-a', REPO, d + '/repo'], check=True)
    return d


def gen(bug):
    d = copy()
    try:
        r = d + '/repo'
        for path, old, new in bug['edits']:
            p = os.path.join(r, path)
            with open(p, encoding='utf-8', newline='') as f:
                s = f.read()
            assert s.count(old) == 1, (bug['id'], path, s.count(old), old)
            with open(p, 'w', encoding='utf-8', newline='') as f:
                f.write(s.replace(old, new))
        diff = subprocess.run(['git', '-C', r, 'diff'], capture_output=True, check=True).stdout
    finally:
        shutil.rmtree(d)
    out = os.path.join(SEEDED, bug['id'])
    os.makedirs(out, exist_ok=True)
    with open(out + '/patch.diff', 'wb') as f:
        f.write(diff)
    with open(out + '/demo.sh', 'w') as f:
        f.write('#!/bin/sh\nPYTHONDONTWRITEBYTECODE=1 exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    os.chmod(out + '/demo.sh', 0o755)
    with open(out + '/demo.py', 'w') as f:
        f.write(DEMO_HEAD + bug['demo'].strip('\n') + '\n')
    with open(out + '/meta.json', 'w') as f:
        json.dump({'property': bug['prop'], 'needs': bug['needs'], 'what_it_breaks': bug['breaks']}, f, indent=1)
        f.write('\n')


VALIDATE = '''
mount --bind {d}/repo /repo || exit 90
cp -a /opt/venv {d}/venv && mount --bind {d}/venv /opt/venv || exit 91
cd /repo
{seed}/demo.sh >{d}/demo0 2>&1 || {{ echo "demo fails on the clean tree"; cat {d}/demo0; exit 1; }}
git apply {seed}/patch.diff || {{ echo "does not apply"; exit 1; }}
bash /opt/vp/build.sh >{d}/build 2>&1 || {{ echo "does not build"; tail {d}/build; exit 1; }}
bash /opt/vp/test.sh {d}/tests.json >{d}/test 2>&1
python3 -c "
import json, sys
got = set(json.load(open('{d}/tests.json'))['passed']); want = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
if want - got: print('tests fail:', want - got); sys.exit(1)
" || exit 1
if {seed}/demo.sh >{d}/demo1 2>&1; then echo "demo passes on the changed tree"; exit 1; fi
tail -2 {d}/demo1
exit 0
'''


def validate(bug):
    d = copy()
    try:
        p = subprocess.run(['unshare', '-m', 'bash', '-c', VALIDATE.format(d=d, seed=os.path.join(SEEDED, bug['id']))], capture_output=True, text=True)
        print(bug['id'], 'valid' if p.returncode == 0 else 'INVALID', (p.stdout + p.stderr).strip()[-600:].replace('\n', ' | '), flush=True)
        return p.returncode == 0
    finally:
        shutil.rmtree(d)


def hunt(bug, props, tier='quick'):
    d = copy()
    try:
        subprocess.run(['git', '-C', d + '/repo', 'apply', os.path.join(SEEDED, bug['id'], 'patch.diff')], check=True)
        subprocess.run(['cp', '-a', ROOT, d + '/verif'], check=True)
        res = []
        for p in props:
            r = subprocess.run(['python3-vt', 'run.py', p], cwd=d + '/verif', capture_output=True, text=True,
                               env=dict(os.environ, VERIF_REPO=d + '/repo', VERIF_SEED=os.environ.get('VERIF_SEED', '1'), VERIF_TIER=tier))
            hit = r.returncode == 1 and f'VIOLATION property={p} ' in r.stdout
            if hit or r.returncode or len(props) == 1:
                res.append(p + ('' if hit else f'(missed, rc {r.returncode})'))
                if len(props) == 1:
                    res.append((r.stdout + r.stderr).strip()[:300].replace('\n', ' | '))
        print(bug['id'], bug['prop'], '->', ' '.join(res) or 'NOTHING', flush=True)
        return res
    finally:
        shutil.rmtree(d)


if __name__ == '__main__':
    cmd, ids = sys.argv[1], [a for a in sys.argv[2:] if not a.startswith('-')]
    bugs = [b for b in load() if not ids or b['id'] in ids or b['prop'] in ids]
    from concurrent.futures import ThreadPoolExecutor
    if cmd == 'gen':
        for b in bugs:
            gen(b)
    elif cmd == 'validate':
        with ThreadPoolExecutor(6) as ex:
            print(sum(ex.map(validate, bugs)), 'of', len(bugs), 'valid')
    elif cmd == 'hunt':
        every = [f'C{i:02d}' for i in range(1, 31)] + [f'T{i:02d}' for i in range(1, 17)]
        with ThreadPoolExecutor(7) as ex:
            list(ex.map(lambda b: hunt(b, every if '--all' in sys.argv else [b['prop']]), bugs))
    else:
        for b in bugs:
            print(b['id'], b['prop'], b['breaks'])
