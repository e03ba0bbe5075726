"""Runs harness/valcalc.c: computations with the core library's functions through the value API."""
import json, os, subprocess
import vt

PKGS = ['core', 'sat', 'md5', 'games']
DIRS = [os.path.join(vt.HARNESS, 'fble')] + [os.path.join(vt.REPO, 'pkgs', p) for p in PKGS]


def build(variant='plain'):
    info = vt.build(variant)
    return vt.harness(info, 'valcalc', ['valcalc.c'], inc=[os.path.join(vt.REPO, 'pkgs/core')])


def run(c, exe, module, jobs, timeout=600):
    """jobs: [(id, [line])].  Returns {id: (end, [per line: True for =, json for ?, None where an application aborted])}.

    end: ok, or what ended the job early; the results up to then are given.
    Jobs not reached because several before them were killed are left out.
    """
    parts = [jobs[k::vt.NPROC] for k in range(vt.NPROC)]

    def one(k):
        if not parts[k]:
            return {}
        f = os.path.join(c.scratch, 'calc%d' % k)
        with open(f, 'w') as o:
            for j, lines in parts[k]:
                o.write('J %s\n' % j)
                o.write(''.join(l + '\n' for l in lines))
        try:
            r = subprocess.run([exe, module, f] + DIRS, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=timeout, env=vt.clean_env(), cwd=c.scratch)
        except subprocess.TimeoutExpired:
            raise vt.CheckError('valcalc timed out')
        out = r.stdout.decode('utf-8', 'replace').split('\n')
        if out[0] in ('UNLINKED', 'ABORTED'):
            return {j: (out[0], []) for j, _ in parts[k]}
        res, cur = {}, None
        for l in out:
            if l.startswith('J '):
                cur = l[2:]
                res[cur] = ['ok', []]
            elif l == 'A':
                res[cur][1].append(None)
            elif l == 'D':
                res[cur][1].append(True)
            elif l.startswith('V '):
                try:
                    res[cur][1].append(json.loads(l[2:]))
                except ValueError:
                    res[cur][0] = 'cut'
            elif l.startswith('X '):
                res[cur][0] = l
            elif l.startswith('BAD'):
                raise vt.CheckError('valcalc: ' + l)
        for j, lines in parts[k]:
            if j not in res and 'STOP' not in out[-2:]:
                raise vt.CheckError('valcalc ended early (%d)' % r.returncode)
        return {j: tuple(x) for j, x in res.items()}
    res = {}
    for d in vt.pmap(one, range(vt.NPROC)):
        res.update(d)
    return res
