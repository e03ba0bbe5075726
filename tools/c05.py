"""C05: reachable values are never lost or changed (Heap.tla histories replayed on the real heap)."""
import sys
import vt, heapgen


def body(c):
    k = 10 if c.thorough else 1
    # exhaustive small scope on the specification itself
    mc = vt.tlc('HeapMC', 'HeapMC%s.cfg' % ('Thorough' if c.thorough else ''), timeout=2400 if c.thorough else 300)
    c.add_tlc(mc)
    asan, plain = vt.build('asan'), vt.build('plain')
    hist = heapgen.histories(c.seed * 7919 + 5, [('graph', 900 * k, 10, 120), ('cycle', 900 * k, 10, 120),
                                                 ('graph', 150 * k, 200, 350), ('compact', 900 * k, 20, 200), ('big', 100 * k, 10, 60)])
    ss = heapgen.scripts(c, 'HeapGen', hist, timeout=2400)
    n = 0
    for info, part in ((plain, {i: s for i, s in ss.items()}), (asan, {i: s for i, s in ss.items() if i % 3 == 0})):
        exe = vt.harness(info, 'heaprun', ['heaprun.c'])
        res = heapgen.run(c, exe, part)
        n += len(res)
        heapgen.judge(c, exe, part, res, lambda m: not ('full collection' in m or 'when the heap was freed' in m or
                                                          'status 256' in m), 'heap')
        if c.violations:
            break
    # values handed from one iteration of a loop to the next
    if not c.violations:
        lh = heapgen.loops(c.seed * 7919 + 55, 300 * k, 45)
        ls = heapgen.scripts(c, 'HeapLoopGen', lh, timeout=2400)
        res = heapgen.run(c, exe, ls, ['100'], name='l')
        n += len(res)
        heapgen.judge(c, exe, ls, res, lambda m: 'status 256' not in m, 'loop', args=['100'])
    walks = sum(1 for s in ss.values() for l in s if l.startswith('show'))
    c.cov.update(traces_validated_against_impl=n, samples=len(hist), walks=walks,
                 collections=sum(1 for s in ss.values() for l in s if l.startswith('gc')),
                 operations=sum(len(s) for s in ss.values()))
    if walks < 5 * len(hist):
        raise vt.CheckError('vacuous histories')


if __name__ == '__main__':
    sys.exit(vt.main('C05', body))
