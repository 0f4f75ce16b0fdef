#!/usr/bin/env python3
"""plant.py SPEC.py [...]: build and confirm planted bugs (development tool, not a check).

A spec defines: id, property, edits = [(file, old, new[, count])], demo (python text), needs, breaks.
Confirms in scratch copies of /repo: patch applies, stable tests pass, demo fails with it and passes without.
"""
import json, os, shutil, subprocess, sys, tempfile, concurrent.futures

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
BASE = json.load(open('/opt/vp/BASELINE.json'))
DEMO_SH = '#!/bin/bash\n# exit 0: the property holds in this scenario\nexport PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1\nexec timeout 120 /opt/venv/bin/python "$(dirname "$0")/demo.py"\n'


def copy():
    d = tempfile.mkdtemp(prefix='plant')
    shutil.copytree('/repo', d + '/r', ignore=shutil.ignore_patterns('__pycache__'))
    return d


def demo(sd, cwd):
    return subprocess.run(['bash', sd + '/demo.sh'], cwd=cwd, capture_output=True, text=True, timeout=200)


def plant(path):
    g = {}
    exec(open(path).read(), g)
    i = g['id']
    sd = VERIF + '/seeded/' + i
    d = copy()
    r = d + '/r'
    try:
        for f, old, new, *c in g['edits']:
            s = open(r + '/polog/' + f).read()
            if old not in s:
                return i, 'old text missing in ' + f
            open(r + '/polog/' + f, 'w').write(s.replace(old, new, *c))
        diff = subprocess.run(['git', 'diff'], cwd=r, capture_output=True, text=True).stdout
        os.makedirs(sd, exist_ok=True)
        open(sd + '/patch.diff', 'w').write(diff)
        open(sd + '/demo.sh', 'w').write(DEMO_SH)
        open(sd + '/demo.py', 'w').write(g['demo'].strip() + '\n')
        json.dump({'property': g['property'], 'needs': g['needs'], 'what_it_breaks': g['breaks']}, open(sd + '/meta.json', 'w'), indent=1)
        b = demo(sd, r)
        subprocess.run(['git', 'checkout', '-q', '--', '.'], cwd=r)
        a = demo(sd, r)
        if a.returncode != 0:
            return i, 'demo fails on the unchanged tree: ' + (a.stdout + a.stderr)[-600:]
        if b.returncode == 0:
            return i, 'demo passes with the patch'
        subprocess.run(['git', 'apply', sd + '/patch.diff'], cwd=r, check=True)
        x = d + '/x.xml'
        for attempt in range(2):
            subprocess.run([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--timeout=200', '-W', 'ignore', '-o', 'junit_family=xunit2', '--junitxml=' + x, 'polog/tests'], cwd=r, capture_output=True, env={**os.environ, 'PYTHONHASHSEED': '0', 'PYTHONDONTWRITEBYTECODE': '1'})
            subprocess.run(['/usr/bin/python3', '/opt/vp/results.py', d + '/o.json', 'junit:' + x], capture_output=True)
            o = json.load(open(d + '/o.json'))
            bad = failed(o)
            if not bad:
                break
        if bad:
            return i, 'stable tests fail: %s' % bad[:5]
        return i, 'ok (demo: %s)' % (b.stdout + b.stderr).strip().splitlines()[-1:]
    finally:
        shutil.rmtree(d, ignore_errors=True)


def failed(o):
    stable = BASE.get('stable') or BASE.get('passed') or BASE.get('tests')
    passed = set(o.get('passed') or [])
    return [t for t in stable if t not in passed]


if __name__ == '__main__':
    with concurrent.futures.ThreadPoolExecutor(5) as ex:
        for i, res in ex.map(plant, sys.argv[1:]):
            print(i, res, flush=True)
