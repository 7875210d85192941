#!/usr/bin/env python3
"""mkseed.py ID PROPERTY DEMO.rs NEEDS BREAKS file old new [...]: record a planted bug after trying its demonstration both ways"""
import sys, os, shutil, subprocess, json
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
i, prop, demo, needs, breaks = sys.argv[1:6]; a = sys.argv[6:]
d = os.path.join(V, 'seeded', i); os.makedirs(d, exist_ok=True)
W = '/tmp/seed%d' % os.getpid()
subprocess.run(['cp', '-a', '/repo', W], check=True)
try:
    shutil.copy(demo, d + '/demo.rs'); shutil.copy(V + '/tools/demo.sh', d + '/demo.sh'); os.chmod(d + '/demo.sh', 0o755)
    run = lambda: subprocess.run(['bash', d + '/demo.sh'], cwd=W, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    p = run(); print('unchanged: exit', p.returncode)
    if p.returncode: print(p.stdout)
    while a:
        f, o, n = a[:3]; a = a[3:]
        q = W + '/src/' + f; s = open(q).read(); k = 1
        if o.startswith('#'): k, o = o[1:].split('#', 1); k = int(k)
        assert s.count(o) >= k, (f, o)
        j = -1
        for _ in range(k): j = s.index(o, j + 1)
        open(q, 'w').write(s[:j] + n + s[j + len(o):])
    open(d + '/patch.diff', 'w').write(subprocess.run(['git', 'diff'], cwd=W, stdout=subprocess.PIPE, text=True).stdout)
    p2 = run(); print('patched: exit', p2.returncode); print('\n'.join(p2.stdout.splitlines()[-6:]))
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + '/meta.json', 'w'), indent=1)
    c = subprocess.run(['python3', 'check.py', prop], cwd=V, env=dict(os.environ, HODOR_REPO=W), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    print('check', prop, 'exit', c.returncode, '\n'.join(x[:200] for x in c.stdout.splitlines()[-3:]))
    # must come from lines of the original repository, and compile
finally: shutil.rmtree(W)
