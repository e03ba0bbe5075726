"""Genes for Heap.tla histories, generation of scripts by TLC, and runs of the real heap on them."""
import json, os, random, re, subprocess
import vt

MIX = {
    # graphs, frames and collections (C05, C06)
    'graph': dict(struct=3, union=2, enum=1, list=1, literal=1, native=3, ref=3, func=2, assign=4, field=2, arg=1,
                  static=1, push=3, pop=3, call=3, ret=2, tail=2, abort=1, tick=2, gc=1, show=1, mine=1, rec=1, recall=2, retail=3),
    # few frames deep, much garbage, recursive references
    'cycle': dict(struct=4, native=3, ref=5, func=2, assign=6, field=2, static=1, push=4, pop=4, tick=3, gc=2, list=1,
                  union=2, call=1, ret=1, show=1),
    # representation of values (C07)
    'pack': dict(struct=7, union=7, enum=3, list=1, literal=2, field=5, arg=4, push=1, pop=1, show=1, native=1, tick=1),
    # application (C08)
    'apply': dict(func=6, call=8, ret=6, tail=6, abort=1, ref=2, assign=2, rec=2, recall=2, retail=2, struct=1, native=1, enum=2, static=1, tick=1, push=1,
                  pop=1, mine=2, show=1, gc=1),
    # tail calls through recursive references: frames are compacted
    'compact': dict(rec=3, recall=6, retail=9, struct=6, native=3, list=2, union=2, ref=1, assign=2, func=1, tick=5, field=2, gc=1,
                    ret=1, push=1, pop=1, show=3, mine=1),
    'big': dict(struct=2, union=2, native=2, ref=2, assign=2, func=2, deep=3, wide=3, push=2, pop=2, call=4, ret=3, tail=2,
                show=1, tick=1, gc=1),
}


def genes(rnd, mix, n):
    ops = [o for o, w in MIX[mix].items() for _ in range(w)]
    return [[rnd.choice(ops)] + [rnd.randrange(1000) for _ in range(4)] for _ in range(n)]


def histories(seed, plan):
    """plan: list of (mix, count, shortest, longest)."""
    rnd = random.Random(seed)
    res = []
    for mix, n, lo, hi in plan:
        for _ in range(n):
            res.append(dict(id=len(res), g=genes(rnd, mix, rnd.randrange(lo, hi + 1))))
    return res


def loops(seed, n, longest):
    rnd = random.Random(seed)
    return [dict(id=k, g=genes(rnd, 'graph', rnd.randrange(1, 20)), m=k % 2, a=rnd.randrange(1000),
                 b=genes(rnd, rnd.choice(['graph', 'cycle', 'apply', 'compact']), rnd.randrange(3, longest))) for k in range(n)]


def scripts(c, module, hist, timeout=900):
    """Has TLC turn genes into scripts; returns {id: lines}."""
    path = os.path.join(c.scratch, module + '.ndjson')
    with open(path, 'w') as f:
        for h in hist:
            f.write(json.dumps(h) + '\n')
    r = vt.tlc(module, module + '.cfg', env={'GENES': path}, timeout=timeout)
    c.add_tlc(r)
    res = {s['id']: s['s'] for s in r.tag('SCRIPT')}
    if len(res) != len(hist):
        raise vt.CheckError('TLC wrote %d of %d scripts\n%s' % (len(res), len(hist), r.out[-2000:]))
    return res


def write(path, ss):
    with open(path, 'w') as f:
        for k, lines in ss:
            f.write('script %d\n' % k + ''.join(l + '\n' for l in lines))


def run(c, exe, ss, args=(), name='s'):
    """Runs scripts {id: lines}; returns [(id, message)] in script order (one per repetition)."""
    items = sorted(ss.items())
    n = vt.NPROC * 4
    parts = [items[i::n] for i in range(n) if items[i::n]]

    def one(ip):
        i, p = ip
        path = os.path.join(c.scratch, '%s%d.txt' % (name, i))
        write(path, p)
        with open(os.devnull, 'w') as null:
            r = subprocess.run([exe, path] + list(args), stdout=subprocess.PIPE, stderr=null, env=vt.clean_env())
        os.unlink(path)
        out = [l.split(' ', 1) for l in r.stdout.decode('latin-1').splitlines()]
        if r.returncode != 0 or len(out) != len(p) * max(1, len(args)):
            raise vt.CheckError('heaprun failed: %d (%d of %d)' % (r.returncode, len(out), len(p)))
        return [(int(a), b) for a, b in out]
    res = []
    for x in vt.pmap(one, list(enumerate(parts))):
        res += x
    return sorted(res, key=lambda x: x[0])


LATE = re.compile(r'finaliz|status 256')            # finalizers and leaks: C06
APPLY = re.compile(r'line \d+ \((done|enter|ret|tail|apply|call|mine)|function |application|expects')


def judge(c, exe, ss, results, keep, what, args=()):
    """Reports failures whose message the property is about (keep), once confirmed by a second run."""
    bad = [(k, m) for k, m in results if not m.startswith('ok')]
    for k, m in bad:
        if not keep(m):
            continue
        again = run(c, exe, {k: ss[k]}, args, name='again')
        if again[0][1].startswith('ok'):
            raise vt.CheckError('not reproducible: history %d: %s' % (k, m))
        c.violation('%s: history of %d operations: %s' % (what, len(ss[k]), again[0][1]),
                    'run %s FILE %s on:\nscript %d\n%s\n' % (exe, ' '.join(args), k, '\n'.join(ss[k])))
        if len(c.violations) >= 5:
            break
    return bad
