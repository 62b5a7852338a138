#!/usr/bin/env python3
"""tools/seedtest.py [--all-checks] [--tests] [ID...]: try planted bugs in scratch copies of /repo (never in /repo itself).
For each: patch applies, demo passes on the unchanged tree and fails with the patch, which checks report it."""
import sys, os, subprocess, json, shutil, concurrent.futures as cf
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = [a for a in sys.argv[1:] if not a.startswith('--')]
ALL = '--all-checks' in sys.argv
NODEMO = '--no-demo' in sys.argv
ids = args or sorted(os.listdir(V + '/seeded'))
man = json.load(open(V + '/MANIFEST.json'))
props = [c['property'] for c in man['checks']]


CAUGHT = {}


def sh(c, cwd=None, env=None, t=900):
    try:
        p = subprocess.run(c, shell=True, cwd=cwd, env=env, capture_output=True, text=True, timeout=t)
        return p.returncode, p.stdout + p.stderr
    except subprocess.TimeoutExpired:
        return 124, 'timeout'


def one(i):
    d = V + '/seeded/' + i
    meta = json.load(open(d + '/meta.json'))
    w = '/tmp/sw/' + i
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs('/tmp/sw', exist_ok=True)
    sh('cp -a /repo ' + w)
    out = []
    rc, o = sh('git apply %s/patch.diff' % d, cwd=w)
    if rc:
        shutil.rmtree(w); return i, 'PATCH DOES NOT APPLY ' + o[:300]
    if not NODEMO:
        # build and test the scratch copy (the scripts name /repo)
        sd = '/tmp/sw/%s.sh.d' % i
        os.makedirs(sd, exist_ok=True)
        for n in ('build.sh', 'test.sh'):
            open(sd + '/' + n, 'w').write(open('/opt/vp/' + n).read().replace('/repo', w).replace('/opt/vp/build.sh', sd + '/build.sh'))
        rb, ob = sh('bash %s/test.sh %s/o.json' % (sd, sd), cwd=w)
        try:
            ok = set(json.load(open(sd + '/o.json'))['passed'])
            want = set(json.load(open('/opt/vp/BASELINE.json')).get('stable') or json.load(open('/opt/vp/BASELINE.json'))['passed'])
            if want - ok:
                out.append('TESTS FAIL %s <<<<<<' % sorted(want - ok)[:3])
        except Exception as x:
            out.append('TESTS: %r %s <<<<<<' % (x, ob[-300:]))
        shutil.rmtree(sd, ignore_errors=True)
        r0, o0 = sh('bash %s/demo.sh' % d, cwd='/repo')
        r1, o1 = sh('bash %s/demo.sh' % d, cwd=w)
        out.append('demo clean=%d patched=%d%s' % (r0, r1, '' if r0 == 0 and r1 else '  <<<<<< BAD DEMO ' + o0[-300:] + '|' + o1[-200:]))
    hits = []
    ev = '/tmp/sw/ev_%s' % i
    env = dict(os.environ, FX_REPO=w, FX_EVIDENCE=ev)
    rc, o = sh('python3 check.py %s --tier quick' % ('ALL' if ALL else meta['property']), cwd=V, env=env)
    shutil.rmtree(ev, ignore_errors=True)
    for l in o.split('\n'):
        if l.startswith('VIOLATION property='):
            hits.append(l.split('=')[1].split()[0])
        if 'ANALYSIS-ERROR' in l or 'Traceback' in l:
            out.append('   ' + l)
    for l in o.split('\n'):
        if l.startswith(meta['property'] + ': '):
            out.append('   ' + l[:260]); break
    if rc not in (0, 1):
        out.append('rc=%d %s' % (rc, o[-300:]))
    CAUGHT[i] = hits
    out.append('own=%s caught by %s%s' % (meta['property'], hits, '' if meta['property'] in hits else '   <<<<<< MISSED'))
    shutil.rmtree(w, ignore_errors=True)
    return i, '\n   '.join(out)


with cf.ThreadPoolExecutor(3) as ex:
    for i, r in ex.map(one, ids):
        print(i, r, flush=True)

if ALL:
    cj = V + '/tools/caught.json'
    c = json.load(open(cj)) if os.path.exists(cj) else {}
    c.update(CAUGHT)
    json.dump({k: c[k] for k in sorted(c) if os.path.isdir(V + '/seeded/' + k)}, open(cj, 'w'), indent=0)
