#!/usr/bin/env python3
"""tools/mut.py PROP[,PROP] file.py — quick trial of textual mutants: file defines M=[(label, file, old, new)...]; prints which are reported."""
import re, sys, os, subprocess, shutil, concurrent.futures as cf, runpy
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = sys.argv[1].split(',')
M = runpy.run_path(sys.argv[2])['M']


def one(k):
    if len(M[k]) == 2:
        lab, eds = M[k]
    else:
        lab, eds = M[k][0], [M[k][1:4]]
    w = '/tmp/mut/%d/%d' % (os.getpid(), k)
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs(w)
    subprocess.check_call('cp -a /repo/src /repo/python /repo/fisx_data /repo/setup.py %s/' % w, shell=True)
    for f, old, new in eds:
        s = open(w + '/' + f).read()
        if s.count(old) < 1:
            return lab, 'NO SUCH TEXT ' + old[:60]
        open(w + '/' + f, 'w').write(s.replace(old, new, 1))
    out = []
    for p in props:
        r = subprocess.run('python3 check.py ' + p, shell=True, cwd=V, env=dict(os.environ, FX_REPO=w, FX_EVIDENCE=w + '/ev'), capture_output=True, text=True)
        ls = [l for l in r.stdout.split('\n') if l.startswith(p + ':') or p == 'ALL' and re.match(r'[A-Z]\d\d: ', l)]
        out.append('%s rc=%d %s' % (p, r.returncode, '\n      '.join(l[:330] for l in ls[:6]) if r.returncode == 1 else (r.stdout + r.stderr)[-300:] if r.returncode else ''))
    shutil.rmtree(w, ignore_errors=True)
    return lab, '\n    '.join(out)


with cf.ThreadPoolExecutor(int(os.environ.get('J', 3))) as ex:
    for l, r in ex.map(one, range(len(M))):
        print('%-40s %s' % (l, r), flush=True)
shutil.rmtree('/tmp/mut/%d' % os.getpid(), ignore_errors=True)
