"""C14: fbld documents evaluate by the documented rules (FbldEval.tla)."""
import json, os, re, resource, subprocess, sys
import vt, fbldgen


def little():
    resource.setrlimit(resource.RLIMIT_AS, (2 << 30, 2 << 30))


def run_impl(cmd, path, tmo, env=None):
    try:
        r = subprocess.run(cmd + [path], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=tmo,
                           preexec_fn=little if 'fble-stdio' in cmd[0] else None,
                           env=env or vt.clean_env())
    except subprocess.TimeoutExpired:
        return dict(rc=-1000, out='', errs=[], raw='TIMEOUT')
    err = r.stderr.decode('latin-1')
    raw = err
    crash = re.search(r'(?m)^=+$|^.*runtime error: |Assertion `|ERROR: MEMORY LEAK', err)
    if crash:
        err = err[:crash.start()]
    errs = []
    parts = re.split(re.escape(path) + r':(\d+):(\d+): error: ', err)
    for i in range(1, len(parts), 3):
        msg = parts[i + 2]
        errs.append(dict(l=[int(parts[i]), int(parts[i + 1])], s=msg[:-1] if msg.endswith('\n') else msg))
    rc = -6 if crash else r.returncode
    return dict(rc=rc, out=r.stdout.decode('latin-1'), errs=errs, raw=raw[-2000:])


def body(c):
    info = vt.build('asan')
    plain = vt.build('plain')
    pkgs = os.path.join(vt.REPO, 'pkgs')
    # the second implementation: pkgs/fbld, written in fble, run by this tree's interpreter
    fble = [plain['bin']('fble-stdio'), '-I', os.path.join(pkgs, 'core'), '-I', os.path.join(pkgs, 'fbld'),
            '-m', '/Fbld/Main%', '--']
    n = 20000 if c.thorough else 5000
    nf = 4000 if c.thorough else 300
    docs = fbldgen.corpus(c.seed * 7919 + 14, n)
    jobs = []
    for k, (m, t) in enumerate(docs):
        p = os.path.join(c.scratch, 'd%d.fbld' % k)
        with open(p, 'w') as f:
            f.write(t)
        jobs.append((k, 'C', [info['bin']('fbld')], p, 20))
    res = vt.pmap(lambda j: run_impl(j[2], j[3], j[4]), jobs)
    # the other one on some of those that end
    ends = [j for j, r in zip(jobs, res) if r['rc'] in (0, 1)]
    more = [(j[0], 'fble', fble, j[3], 300) for j in ends[::max(1, len(ends) // nf)]]
    res += vt.pmap(lambda j: run_impl(j[2], j[3], j[4]), more)
    jobs += more
    path = os.path.join(c.scratch, 'docs.ndjson')
    with open(path, 'w') as f:
        for q, (j, r) in enumerate(zip(jobs, res)):
            f.write(json.dumps(dict(id=q, doc=docs[j[0]][0], impl=j[1], rc=r['rc'], out=r['out'], errs=r['errs'])) + '\n')
    t = vt.tlc('FbldEvalTrace', 'FbldEvalTrace.cfg', env={'DOCS': path}, args=['-continue'], ok=(0, 12),
               timeout=2000 if c.thorough else 600)
    c.add_tlc(t)
    c.cov['traces_validated_against_impl'] = len(jobs)
    c.cov['samples'] = len(docs)
    seen = set()
    for mm in t.tag('MISMATCH'):
        q = mm['id']
        if q in seen:
            continue
        seen.add(q)
        j = jobs[q]
        again = run_impl(j[2], j[3], j[4])
        if {k: again[k] for k in ('rc', 'out', 'errs')} != {k: res[q][k] for k in ('rc', 'out', 'errs')}:
            raise vt.CheckError('not reproducible: %s\n%s\n%s' % (docs[j[0]][1], res[q], again))
        text = docs[j[0]][1]
        c.violation('fbld (%s): rc=%s out=%r errs=%r; specified %s' %
                    (j[1], again['rc'], again['out'][:200], again['errs'][:3], json.dumps(mm['exp'])[:400]),
                    'document (feed to fbld):\n%s\nstderr:\n%s' % (text, again['raw']))
    oks = sum(1 for j, r in zip(jobs, res) if j[1] == 'C' and r['rc'] == 0)
    c.cov['runs_of_pkgs_fbld'] = sum(1 for j in jobs if j[1] == 'fble')
    deep = len(t.tag('DEEP'))
    c.cov.update(documents_ok=oks, documents_rejected=len(docs) - oks, beyond_fuel=deep)
    if not c.violations and (oks < n // 5 or len(docs) - oks < n // 5 or deep > n // 20):
        raise vt.CheckError('vacuous corpus: ok=%d of %d, beyond fuel=%d' % (oks, len(res), deep))
    if t.rc == 12 and not seen:
        raise vt.CheckError('TLC reported a violation without a mismatch\n' + t.out[-3000:])


if __name__ == '__main__':
    sys.exit(vt.main('C14', body))
