#!/usr/bin/env python3
"""seed.py NAME: takes /tmp/seedwt's (a copy of /repo) current diff as planted bug NAME; the spec comes on stdin as JSON
{"property","needs","what_it_breaks","cases":[[text, expected]]}; expected: null (must be rejected) or words (hex, in order).
Checks that it builds, passes the stable tests, and that the demo tells the two trees apart."""
import json, os, subprocess, sys
V = '/verif'
WT = '/tmp/seedwt'
name = sys.argv[1]
spec = json.load(sys.stdin)
sh = lambda c, **k: subprocess.run(c, shell=True, capture_output=True, text=True, **k)
if 'edit' in spec:  # [[file, old, new], ...]
    assert sh('git -C %s fetch -q /repo HEAD && git -C %s checkout -q -f FETCH_HEAD' % (WT, WT)).returncode == 0
    for f, a, b in spec['edit']:
        t = open('%s/src/%s' % (WT, f)).read()
        assert t.count(a) == 1, (f, a, t.count(a))
        open('%s/src/%s' % (WT, f), 'w').write(t.replace(a, b))
if 'texts' in spec:  # what the unchanged tree makes of them
    import tempfile, struct
    spec['cases'] = []
    with tempfile.TemporaryDirectory() as td:
        for x in spec['texts']:
            i, o = td + '/i', td + '/o'
            open(i, 'wb').write(x.encode('latin1'))
            r = subprocess.run(['/repo/_build/nxas', i, '-o', o], capture_output=True)
            if r.returncode == 0:
                b = open(o, 'rb').read()
                spec['cases'].append([x, ['%016x' % w for w in struct.unpack('<%dQ' % (len(b) // 8), b)]])
            else:
                spec['cases'].append([x, r.stderr.decode().split(':', 1)[1].strip() if spec.get('position') else None])
    print(spec['cases'])
diff = sh('git -C %s diff' % WT).stdout
assert diff.strip(), 'no diff'
d = '%s/seeded/%s' % (V, name)
os.makedirs(d, exist_ok=True)
open(d + '/patch.diff', 'w').write(diff)
json.dump({k: spec[k] for k in ('property', 'needs', 'what_it_breaks')}, open(d + '/meta.json', 'w'), indent=1)
if 'demo' in spec:
    open(d + '/demo.sh', 'w').write(spec['demo'])
else:
    json.dump(spec['cases'], open(d + '/cases.json', 'w'), indent=1)
    open(d + '/demo.sh', 'w').write('''#!/bin/bash
# assembles the texts of cases.json with the built tool and compares what comes out
here=$(cd "$(dirname "$0")" && pwd)
exec python3 - "$here/cases.json" <<'PY'
import json, os, struct, subprocess, sys, tempfile
bad = 0
with tempfile.TemporaryDirectory() as d:
    for text, want in json.load(open(sys.argv[1])):
        i, o = os.path.join(d, 'in.s'), os.path.join(d, 'out.bin')
        if os.path.exists(o):
            os.unlink(o)
        open(i, 'wb').write(text.encode('latin1'))
        r = subprocess.run(['./_build/nxas', i, '-o', o], capture_output=True, timeout=60)
        got = None
        if r.returncode == 0:
            b = open(o, 'rb').read()
            got = ['%016x' % w for w in struct.unpack('<%dQ' % (len(b) // 8), b)]
        if isinstance(want, str):
            ok = r.returncode == 1 and want.encode() in r.stderr
        elif want is None:
            ok = r.returncode == 1 and r.stderr
        else:
            ok = got == want
        if not ok:
            print('text %r: expected %s, got %s (exit %d)' % (text, want, got, r.returncode))
            bad = 1
sys.exit(bad)
PY
''')
os.chmod(d + '/demo.sh', 0o755)
r = sh('cd /repo && bash %s/demo.sh' % d)
print('unchanged tree: demo', r.returncode, r.stdout[-600:], r.stderr[-300:])
assert r.returncode == 0, 'demo fails on the unchanged tree'
# build the changed tree like /repo
r = sh('git -C /repo apply %s/patch.diff && bash /opt/vp/build.sh' % d)
try:
    print('build', r.returncode, r.stderr[-300:] if r.returncode else '')
    assert r.returncode == 0
    t = sh('bash /opt/vp/test.sh /tmp/seed_t.json')
    base = json.load(open('/opt/vp/BASELINE.json'))
    now = json.load(open('/tmp/seed_t.json'))
    bp = set(base.get('passed', base.get('stable', base.get('tests', []))))
    missing = bp - set(now['passed'])
    print('stable tests lost:', len(missing), list(missing)[:3], 'of', len(bp))
    r = sh('cd /repo && bash %s/demo.sh' % d)
    print('changed tree: demo', r.returncode, r.stdout[-600:], r.stderr[-300:])
    assert r.returncode != 0 and not missing
    if len(sys.argv) > 2:
        r = sh('cd %s && python3 check.py %s quick' % (os.environ.get('VS', V), spec['property']))
        print('check', spec['property'], 'exit', r.returncode, r.stdout[-700:])
finally:
    sh('git -C /repo checkout -- . && bash /opt/vp/build.sh')
