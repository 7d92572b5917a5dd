"""Developer tool (not used by any check): builds and tries planted bugs, in scratch copies only.

  seed.py make SPEC.py [ID..]   SPEC defines SEEDS = [dict(id, property, needs, what, edits=[(file, old, new)], demo='python')]
  seed.py try ID[,ID..]|all [notests]
      copies the repository and /verif to a scratch directory, applies the change, builds, runs the
      stable tests, the demonstration with and without the change, and the property's quick check
SEED_R / SEED_V: repository and verification tree to copy (default /repo and /verif).
"""
import json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.environ.get('SEED_V', '/verif'); R = os.environ.get('SEED_R', '/repo')
PRE = '''import sys, warnings
warnings.simplefilter('ignore')
import numpy as np
def expect(got, want, what=''):
    ok = got == want if not isinstance(got, np.ndarray) else np.array_equal(got, np.asarray(want))
    if not ok:
        print('WRONG', what, 'got', got, 'want', want); sys.exit(1)
'''
SH = '''#!/bin/bash
export PYTHONPATH=$PWD/src PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg OMP_NUM_THREADS=1
exec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"
'''


def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def make(spec, only):
    ns = {}
    exec(open(spec).read(), ns)
    for s in ns['SEEDS']:
        if only and s['id'] not in only:
            continue
        d = os.path.join(V, 'seeded', s['id'])
        os.makedirs(d, exist_ok=True)
        w = tempfile.mkdtemp(prefix='seedmk')
        try:
            sh('git clone -q %s %s/r' % (R, w))
            for f, old, new in s['edits']:
                p = os.path.join(w, 'r/src/skmultiflow', f)
                t = open(p, newline='').read()
                if '\r\n' in t:
                    old, new = old.replace('\n', '\r\n'), new.replace('\n', '\r\n')
                if t.count(old) != 1:
                    print('NO MATCH', s['id'], f, t.count(old), old.splitlines()[0])
                    break
                open(p, 'w', newline='').write(t.replace(old, new))
            else:
                open(d + '/patch.diff', 'wb').write(subprocess.run(['git', '-C', w + '/r', 'diff'], stdout=subprocess.PIPE).stdout)
        finally:
            shutil.rmtree(w)
        open(d + '/demo.py', 'w').write(PRE + s['demo'])
        open(d + '/demo.sh', 'w').write(SH)
        os.chmod(d + '/demo.sh', 0o755)
        json.dump(dict(property=s['property'], needs=s['needs'], what_it_breaks=s['what']), open(d + '/meta.json', 'w'), indent=1)
        print('made', s['id'])


def trial(i, tests=True):
    d = os.path.join(V, 'seeded', i)
    prop = json.load(open(d + '/meta.json'))['property']
    out = {}
    w = tempfile.mkdtemp(prefix='seedtry', dir='/tmp')
    r, v = w + '/r', w + '/v'
    try:
        sh('cp -a %s %s; mkdir %s; cp -a %s/mc %s/check %s/known_findings.jsonl %s/; mkdir -p %s/evidence' % (R, r, v, V, V, V, v, v))
        sh('git -C %s checkout -q -- .' % r)
        sh("sed -i 's#%s#%s#g; s#%s#%s#g' %s/check %s/mc/env.py" % (R, r, V, v, v, v))
        a = sh('bash %s/demo.sh' % d, cwd=r)
        out['demo_clean'] = a.returncode
        if a.returncode:
            print(a.stdout[-1200:])
        p = sh('git -C %s apply %s/patch.diff' % (r, d))
        if p.returncode:
            print(i, 'DOES NOT APPLY', p.stdout)
            return
        for n in ('native.sh', 'test.sh'):
            t = open('/opt/vp/' + n).read().replace('/repo', r).replace('/opt/vp/native.sh', w + '/native.sh').replace('-n 8', '-n 4').replace('/opt/vp/native.log', w + '/native.log')
            open(w + '/' + n, 'w').write(t)
        sh('bash %s/native.sh' % w)
        b = sh('bash %s/demo.sh' % d, cwd=r)
        out['demo_bug'] = b.returncode
        out['demo_says'] = b.stdout[-200:]
        if tests:
            t = sh('bash %s/test.sh %s/o.json' % (w, w))
            base = json.load(open('/opt/vp/BASELINE.json'))['stable']
            o = set(json.load(open(w + '/o.json'))['passed'])
            out['missing'] = [t for t in base if t not in o]
        c = sh('%s/check %s quick' % (v, prop))
        out['check'] = c.returncode
        out['first'] = ' | '.join([l for l in c.stdout.splitlines() if 'KNOWN' not in l][:5])[:500]
    finally:
        shutil.rmtree(w)
    ok = out['demo_clean'] == 0 and out['demo_bug'] not in (0, None) and not out.get('missing') and out['check'] == 1
    print('OK  ' if ok else 'BAD ', i, prop, out, flush=True)


if sys.argv[1] == 'make':
    make(sys.argv[2], sys.argv[3:])
else:
    ids = sys.argv[2].split(',') if sys.argv[2] != 'all' else sorted(os.listdir(V + '/seeded'))
    with ThreadPoolExecutor(int(os.environ.get('SEED_J', '2'))) as ex:
        list(ex.map(lambda i: trial(i, 'notests' not in sys.argv), ids))
