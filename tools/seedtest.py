"""Development aid (no check uses it): does a planted change count, and is it caught?  seedtest.py [--nocheck] ID..."""
import json, os, subprocess, sys

def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)

base = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])

def tests():
    if os.path.exists('/tmp/seedtest.json'):
        os.unlink('/tmp/seedtest.json')
    run(['timeout', '-k', '5', '60', 'bash', '/opt/vp/test.sh', '/tmp/seedtest.json'])
    run(['pkill', '-f', '-x', '.*fble-(mem-)?test(.cov)? .*'])
    if not os.path.exists('/tmp/seedtest.json'):
        return ['TESTS HANG']
    p = set(json.load(open('/tmp/seedtest.json'))['passed'])
    return sorted(base - p)

def one(i, check=True):
    d = '/verif/seeded/' + i
    meta = json.load(open(d + '/meta.json'))
    subprocess.run(['git', '-C', '/repo', 'checkout', '-q', '--', '.'])
    run(['bash', '/opt/vp/build.sh'])
    r0 = run(['bash', d + '/demo.sh'], cwd='/repo', timeout=300)
    a = run(['git', '-C', '/repo', 'apply', d + '/patch.diff'])
    if a.returncode:
        return '%s: DOES NOT APPLY %s' % (i, a.stdout.decode()[:300])
    try:
        b = run(['bash', '-c', 'ulimit -v 8000000; timeout 300 bash /opt/vp/build.sh'])
        lost = tests()
        r1 = run(['bash', d + '/demo.sh'], cwd='/repo', timeout=300)
        res = '%s: build=%d lost=%d%s demo clean=%d patched=%d' % (i, b.returncode, len(lost), lost[:3], r0.returncode, r1.returncode)
        if b.returncode:
            res += '\n' + b.stdout.decode('utf-8', 'replace')[-600:]
        if r0.returncode:
            res += '\n' + r0.stdout.decode('utf-8', 'replace')[-600:]
        if check:
            env = dict(os.environ, VERIF_SEED='1', VERIF_TIER='quick')
            c = run(['./check', meta['property'], 'quick'], cwd='/verif', env=env)
            o = c.stdout.decode('utf-8', 'replace').strip().split('\n')
            res += ' check(%s)=%d %s' % (meta['property'], c.returncode, ' | '.join(x[:150] for x in o[-2:]))
    finally:
        subprocess.run(['git', '-C', '/repo', 'checkout', '-q', '--', '.'])
        run(['bash', '/opt/vp/build.sh'])
    return res

args = sys.argv[1:]
chk = '--nocheck' not in args
ids = [a for a in args if not a.startswith('-')] or sorted(os.listdir('/verif/seeded'))
for i in ids:
    print(one(i, chk), flush=True)
