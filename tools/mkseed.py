"""mkseed(id, property, [(file, old, new)], needs, breaks, demo): write /verif/seeded/<id> (development only)"""
import os, subprocess, json, tempfile, shutil
HEAD = '''import sys, warnings
warnings.filterwarnings('ignore')
sys.path.insert(0, '/repo')
import numpy as np
'''
HELP = '''
from PyQCodes.chan.channel import AnalyticQChan
def isom(nk, r, c, seed=0):
    g = np.random.RandomState(seed)
    q, _ = np.linalg.qr(g.normal(size=(nk * r, c)) + 1j * g.normal(size=(nk * r, c)))
    return [q[k * r:(k + 1) * r] for k in range(nk)]
def state(d, seed=1):
    g = np.random.RandomState(seed)
    m = g.normal(size=(d, d)) + 1j * g.normal(size=(d, d))
    m = m.dot(m.conj().T)
    return m / np.trace(m).real
def tensor(ks, n):
    out = [np.eye(1)]
    for _ in range(n):
        out = [np.kron(a, b) for a in out for b in ks]
    return out
def need(c, msg):
    if not c:
        print('FAILS:', msg)
        sys.exit(1)
'''


def mkseed(id, prop, edits, needs, breaks, demo, chan=True):
    d = '/verif/seeded/%s' % id
    os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp(dir='/tmp')
    diff = b''
    files = {}
    for f, old, new in edits:
        s = files.get(f) or open('/repo/' + f).read()
        assert s.count(old) == 1, (id, f, s.count(old), old)
        files[f] = s.replace(old, new)
    for f, s in files.items():
        for side, txt in (('a', open('/repo/' + f).read()), ('b', s)):
            p = os.path.join(w, side, f)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            open(p, 'w').write(txt)
        diff += subprocess.run(['diff', '-u', 'a/' + f, 'b/' + f], cwd=w, capture_output=True).stdout
    open(d + '/patch.diff', 'wb').write(diff)
    open(d + '/demo.py', 'w').write(HEAD + (HELP if chan else HELP.replace('from PyQCodes.chan.channel import AnalyticQChan\n', '')) + demo.strip() + '\nprint("holds")\n')
    open(d + '/demo.sh', 'w').write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1\nexec timeout 250 /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + '/meta.json', 'w'), indent=1)
    shutil.rmtree(w)
