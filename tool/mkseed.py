#!/usr/bin/env python3
"""mkseed.py new ID < spec : edits scratch copy /tmp/w, records patch, verifies demo.
   mkseed.py verify ID... : re-verifies seeds.   mkseed.py checks ID [Cxx...] : runs checks against the seed."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = '/tmp/w'


def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def clean():
    sh('git -C %s checkout -q -- . && git -C %s clean -fdq -e _build' % (W, W))
    sh('git -C %s fetch -q /repo HEAD && git -C %s reset -q --hard FETCH_HEAD' % (W, W))


def build():
    r = sh('bash /tmp/wbuild.sh')
    return r.returncode == 0, r.stdout[-3000:]


def demo(i):
    try:
        r = sh('timeout 280 bash %s/seeded/%s/demo.sh' % (V, i), cwd=W)
    except Exception as e:
        return 99, str(e)
    return r.returncode, r.stdout[-1500:]


def verify(i):
    clean()
    ok, o = build()
    if not ok:
        print('clean build failed', o)
        return False
    rc, o = demo(i)
    if rc != 0:
        print(i, 'demo fails on clean tree:', rc, o)
        return False
    a = sh('git -C %s apply %s/seeded/%s/patch.diff' % (W, V, i))
    if a.returncode:
        print(i, 'patch does not apply', a.stdout)
        return False
    ok, o = build()
    if not ok:
        print(i, 'patched build failed', o)
        clean()
        return False
    t = sh('bash /tmp/wtest.sh /tmp/seed.json')
    base = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    got = set(json.load(open('/tmp/seed.json'))['passed'])
    miss = sorted(base - got)
    rc, o = demo(i)
    clean()
    if miss:
        print(i, 'breaks tests', miss[:5])
        return False
    if rc == 0:
        print(i, 'demo passes with the patch', o)
        return False
    print(i, 'OK; demo with patch:', rc, o[-300:].strip())
    return True


def checks(i, props):
    clean()
    a = sh('git -C %s apply %s/seeded/%s/patch.diff' % (W, V, i))
    if a.returncode:
        print('no apply')
        return
    res = []
    for p in props:
        r = sh('VERIF_REPO=%s python3 %s/check.py %s' % (W, V, p))
        if r.returncode:
            res.append((p, r.returncode))
            print('\n'.join(l for l in r.stdout.splitlines() if l[:2] not in ('  ',) and not l.startswith('KNOWN'))[:1500])
    print(i, 'caught by', res)
    clean()
    return [p for p, c in res if c == 1]


if __name__ == '__main__':
    if sys.argv[1] == 'new':
        i = sys.argv[2]
        s = json.load(sys.stdin)
        clean()
        d = '%s/seeded/%s' % (V, i)
        os.makedirs(d, exist_ok=True)
        for f, o, n in s['edits']:
            t = open(W + '/' + f).read()
            if t.count(o) != 1:
                sys.exit('%s: %d matches of %r' % (f, t.count(o), o))
            open(W + '/' + f, 'w').write(t.replace(o, n))
        open(d + '/patch.diff', 'w').write(sh('git -C %s diff' % W).stdout)
        json.dump(s['meta'], open(d + '/meta.json', 'w'), indent=1)
        for n, c in s.get('files', {}).items():
            open(d + '/' + n, 'w').write(c)
        if os.path.exists(d + '/demo.sh'):
            verify(i)
    elif sys.argv[1] == 'verify':
        ids = sys.argv[2:] or sorted(os.listdir(V + '/seeded'))
        bad = [i for i in ids if not verify(i)]
        print('failed:', bad)
    elif sys.argv[1] == 'checks':
        cf = V + '/notes/caught.json'
        c = json.load(open(cf)) if os.path.exists(cf) else {}
        i = sys.argv[2]
        props = sys.argv[3:] or [json.load(open('%s/seeded/%s/meta.json' % (V, i)))['property']]
        c[i] = sorted(set(c.get(i, [])) - set(props) | set(checks(i, props) or []))
        json.dump(c, open(cf, 'w'), indent=1)
