"""C07: values read back as built (Heap.tla histories of constructions and accesses around the word limit)."""
import sys
import vt, heapgen


def body(c):
    k = 10 if c.thorough else 1
    asan, plain = vt.build('asan'), vt.build('plain')
    hist = heapgen.histories(c.seed * 7919 + 7, [('pack', 4000 * k, 5, 60), ('pack', 300 * k, 80, 160), ('big', 40 * k, 10, 60)])
    ss = heapgen.scripts(c, 'HeapGen', hist, timeout=2400)
    n = 0
    for info, part in ((plain, ss), (asan, {i: s for i, s in ss.items() if i % 5 == 0})):
        exe = vt.harness(info, 'heaprun', ['heaprun.c'])
        res = heapgen.run(c, exe, part)
        n += len(res)
        heapgen.judge(c, exe, part, res, lambda m: not heapgen.LATE.search(m), 'values')
        if c.violations:
            break
    reads = sum(1 for s in ss.values() for l in s if l.split()[0] in ('field', 'ufield', 'uarg', 'show'))
    c.cov.update(traces_validated_against_impl=n, samples=len(hist), reads=reads)
    if reads < 10 * len(hist):
        raise vt.CheckError('vacuous histories')


if __name__ == '__main__':
    sys.exit(vt.main('C07', body))
