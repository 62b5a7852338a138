"""mkseed(id, prop, file, old, new, demo_cpp, needs, breaks, data=False, asan=False): creates /verif/seeded/<id> from a textual edit of /repo HEAD."""
import os, sys, json, subprocess, shutil
V = '/verif'


def mkseed(id, prop, edits, demo, needs, breaks, data=False, asan=False, script=None, files=()):
    d = V + '/seeded/' + id
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    w = '/tmp/mkseed'
    shutil.rmtree(w, ignore_errors=True)
    subprocess.check_call(['git', '-C', '/repo', 'worktree', 'prune'])
    subprocess.check_call('git -C /repo archive HEAD | (mkdir -p %s; tar x -C %s); cd %s; git init -q; git add -A -f; git -c user.email=a@b -c user.name=a commit -qm x' % (w, w, w), shell=True)
    for f, old, new in edits:
        p = w + '/' + f
        s = open(p).read()
        assert s.count(old) == 1, (id, f, s.count(old))
        open(p, 'w').write(s.replace(old, new))
    diff = subprocess.check_output(['git', '-C', w, 'diff'], text=True)
    open(d + '/patch.diff', 'w').write(diff)
    shutil.rmtree(w)
    if script:
        open(d + '/demo.sh', 'w').write(script)
    else:
        s = open(V + '/tools/demo/run.sh').read()
        s = s.replace('FLAGS', '-g -fsanitize=address,undefined -fno-sanitize-recover=all' if asan else '')
        s = s.replace('DATA', 'python3 "$D"/mkdata.py "$T"/data || exit 3' if data else '')
        open(d + '/demo.sh', 'w').write(s)
        open(d + '/demo.cpp', 'w').write(demo)
        if data:
            shutil.copy(V + '/tools/demo/mkdata.py', d)
    for n, c in files:
        open(d + '/' + n, 'w').write(c)
    os.chmod(d + '/demo.sh', 0o755)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + '/meta.json', 'w'), indent=1)
