"""C06: unreachable values are reclaimed, finalizers run exactly once, bounded loops use bounded memory."""
import sys
from collections import defaultdict
import vt, heapgen

SHORT, LONG = 400, 4000
SLACK = 8192     # bytes; a loop that keeps one object per iteration keeps (LONG-SHORT)*40 more


def body(c):
    k = 10 if c.thorough else 1
    asan, plain = vt.build('asan'), vt.build('plain')
    hist = heapgen.histories(c.seed * 7919 + 6, [('graph', 700 * k, 10, 120), ('cycle', 1200 * k, 10, 150)])
    ss = heapgen.scripts(c, 'HeapGen', hist, timeout=2400)
    n = 0
    mine = lambda m: heapgen.LATE.search(m) or 'crashed' in m
    for info, part in ((plain, ss), (asan, {i: s for i, s in ss.items() if i % 4 == 0})):
        exe = vt.harness(info, 'heaprun', ['heaprun.c'])
        res = heapgen.run(c, exe, part)
        n += len(res)
        heapgen.judge(c, exe, part, res, mine, 'finalizers')
        if c.violations:
            return
    # loops
    exe = vt.harness(plain, 'heaprun', ['heaprun.c'])
    lh = heapgen.loops(c.seed * 7919 + 66, 400 * k, 45)
    ls = heapgen.scripts(c, 'HeapLoopGen', lh, timeout=2400)
    reps = [str(SHORT), str(LONG)]
    res = heapgen.run(c, exe, ls, reps, name='l')
    by = defaultdict(list)
    for i, m in res:
        by[i].append(m)

    def grows(ms):
        if all(m.startswith('ok') for m in ms):
            a, b = (int(m.split()[1]) for m in ms)
            return b > a + SLACK, 'peak %d bytes after %d iterations, %d after %d' % (a, SHORT, b, LONG)
        return None, [m for m in ms if not m.startswith('ok')][0]
    bad = 0
    for i, ms in by.items():
        g, why = grows(ms)
        if g or (g is None and mine(why)):
            g2, why2 = grows([m for _, m in heapgen.run(c, exe, {i: ls[i]}, reps, name='again')])
            if g2 is False:
                raise vt.CheckError('not reproducible: loop %d: %s' % (i, why))
            bad += 1
            if bad <= 3:
                c.violation('bounded loop: %s' % why2, 'run %s FILE %s on:\nscript %d\n%s\n' %
                            (exe, ' '.join(reps), i, '\n'.join(ls[i])))
    c.cov.update(traces_validated_against_impl=n + len(res), samples=len(hist) + len(lh), loops=len(lh),
                 must_be_finalized=sum(len(l.split()) - 1 for s in ss.values() for l in s if l.startswith('gc')))
    if c.cov['must_be_finalized'] < len(hist):
        raise vt.CheckError('vacuous: hardly any native has to be finalized')


if __name__ == '__main__':
    sys.exit(vt.main('C06', body))
