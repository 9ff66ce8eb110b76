#!/usr/bin/env python3
"""Development tool: make a planted change.  seed.py new ID PROP  (reads /tmp/seeds/ID.py: EDITS, DEMO, NEEDS, BREAKS [, FLAGS]),
seed.py run ID [PROP]: apply, run the check, undo.  Works on /repo itself and always restores it."""
import sys, os, json, subprocess, re, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = os.environ.get('VC_REPO', '/repo'); VP = '/opt/vp' if R == '/repo' else os.path.dirname(R) + '/vp'
def sh(c, t=900, **k):
    try: p = subprocess.run(c, shell=isinstance(c, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t, **k)
    except subprocess.TimeoutExpired: return 124, 'timeout'
    return p.returncode, p.stdout.decode('latin-1')
def clean(): sh(['git', '-C', R, 'checkout', '--', '.']); assert not sh(['git', '-C', R, 'status', '--short'])[1]
DEMOSH = '''#!/bin/bash
# builds the library from the current tree together with demo.c and runs it: exit 0 if the behaviour is right
d=$(cd "$(dirname "$0")" && pwd); t=$(mktemp) || exit 99; trap 'rm -f "$t"' EXIT
A=; for p in RAII ZE; do A="$A -D${p}_MALLOC=malloc -D${p}_FREE=free -D${p}_REALLOC=realloc -D${p}_CALLOC=calloc -D${p}_MEMALIGN=memalign"; done
gcc -std=gnu90 -w -g -O1 %s -DUSE_DEBUG -D_GNU_SOURCE -include stdlib.h -include malloc.h -include stdbool.h -DC_API=extern "-DFORCEINLINE=inline" $A \\
  -Iinclude "$d/demo.c" %s -o "$t" -lpthread || exit 98
ASAN_OPTIONS=detect_leaks=0 timeout -s KILL 60 "$t" >/dev/null 2>&1
'''
def stable():
    b = json.load(open(VP + '/BASELINE.json'))['stable']; o = tempfile.mktemp(suffix='.json')
    rc, out = sh('bash %s/build.sh' % VP, 300)
    if rc: return 'does not build: ' + out[-800:]
    sh(['bash', VP + '/test.sh', o], 300); P = set(json.load(open(o))['passed']); os.unlink(o)
    m = [x for x in b if x not in P]
    return 'missing tests: %s' % m[:5] if m else ''
def new(i, prop):
    g = {}; exec(open('/tmp/seeds/%s.py' % i).read(), g)
    clean(); d = os.path.join(V, 'seeded', i); os.makedirs(d, exist_ok=True)
    base = sh(['git', '-C', R, 'rev-list', '--max-parents=0', 'HEAD'])[1].split()[0]
    for f, old, nw in g['EDITS']:
        p = os.path.join(R, f); t = open(p).read(); assert t.count(old) == 1, (f, old, t.count(old))
        open(p, 'w').write(t.replace(old, nw))
    diff = sh(['git', '-C', R, 'diff'])[1]; open(os.path.join(d, 'patch.diff'), 'w').write(diff)
    for f in {e[0] for e in g['EDITS']}:   # removed lines must be in the original file
        o = sh(['git', '-C', R, 'show', base + ':' + f])[1].split('\n')
        for l in re.findall(r'^-(?!--)(.*)$', diff, re.M):
            if l not in o: print('  NOT ORIGINAL:', f, l)
    open(os.path.join(d, 'demo.c'), 'w').write(g['DEMO'])
    srcs = g.get('SRCS', 'src/raii.c src/except.c src/arena.c src/swar.c')
    open(os.path.join(d, 'demo.sh'), 'w').write(DEMOSH % (g.get('FLAGS', ''), srcs)); os.chmod(os.path.join(d, 'demo.sh'), 0o755)
    json.dump(dict(property=prop, needs=g['NEEDS'], what_it_breaks=g['BREAKS']), open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    e = stable(); rc1, o1 = sh(['bash', os.path.join(d, 'demo.sh')], 300, cwd=R)
    clean(); sh('bash %s/build.sh' % VP, 300); rc0, o0 = sh(['bash', os.path.join(d, 'demo.sh')], 300, cwd=R); clean()
    print(i, prop, 'tests:', e or 'ok', 'demo base', rc0, o0[-300:], 'patched', rc1, o1[-300:], 'OK' if not e and rc0 == 0 and rc1 not in (0, 98, 99) else '**** BAD')
def runp(i, prop=None):
    d = os.path.join(V, 'seeded', i); prop = prop or json.load(open(os.path.join(d, 'meta.json')))['property']
    clean(); rc, o = sh(['git', '-C', R, 'apply', os.path.join(d, 'patch.diff')]); assert rc == 0, o
    try: rc, o = sh(['python3', os.path.join(V, 'tool/vc.py'), 'check', prop], 900, env=dict(os.environ, VERIF_SEED='1', VERIF_TIER='quick'))
    finally: clean()
    v = [l for l in o.split('\n') if l.startswith('VIOLATION')]
    print(i, prop, 'rc', rc, 'CAUGHT' if rc == 1 and v else '**** MISSED', (v or [''])[0][-40:]); print('   ' + '\n   '.join(o.strip().split('\n')[-6:]))
a = sys.argv[1:]
if a[0] == 'new': new(a[1], a[2])
elif a[0] == 'run':
    for i in a[1:]: runp(i)
elif a[0] == 'runp': runp(a[1], a[2])
