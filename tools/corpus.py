"""Regression cases.  python3 corpus.py [COMMIT...]

For every repaired defect ("fixed:" line of known_findings.jsonl): takes the repair back in a copy of /repo, runs the check
of its property there and saves the failing case to corpus/<property>/<commit>.json; says so when the check stays quiet.
"""
import glob
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def one(entry):
    prop, commit, what = entry
    d = tempfile.mkdtemp(prefix='corpus', dir='/tmp')
    try:
        subprocess.run(['cp', '-a', '/repo', d + '/repo'], check=True)
        r = subprocess.run(['git', '-C', d + '/repo', 'revert', '-n', commit], capture_output=True, text=True)
        if r.returncode:
            print(commit, prop, 'CONFLICT', (r.stdout + r.stderr)[:200], flush=True)
            return
        subprocess.run(['cp', '-a', ROOT, d + '/verif'], check=True)
        shutil.rmtree(d + '/verif/corpus', ignore_errors=True)
        p = subprocess.run(['python3-vt', 'run.py', prop], cwd=d + '/verif', capture_output=True, text=True,
                           env=dict(os.environ, VERIF_REPO=d + '/repo', VERIF_SEED=os.environ.get('VERIF_SEED', '1')))
        m = re.search(r'^VIOLATION property=\S+ replay=(\S+)', p.stdout, re.M)
        if p.returncode != 1 or not m:
            print(commit, prop, 'QUIET', p.stdout[-300:], flush=True)
            return
        with open(m.group(1)) as f:
            rec = json.load(f)
        out = os.path.join(ROOT, 'corpus', prop)
        os.makedirs(out, exist_ok=True)
        with open(os.path.join(out, commit + '.json'), 'w') as f:
            json.dump({'what': what, 'case': rec['case']}, f, indent=1)
            f.write('\n')
        print(commit, prop, 'ok', rec['message'][:150].replace('\n', ' | '), flush=True)
    finally:
        shutil.rmtree(d)


with open(os.path.join(ROOT, 'known_findings.jsonl')) as f:
    entries = re.findall(r'^fixed: property=(\S+) (\S+) (.*)$', f.read(), re.M)
entries = [e for e in entries if not sys.argv[1:] or e[1] in sys.argv[1:]]
with ThreadPoolExecutor(4) as ex:
    list(ex.map(one, entries))
