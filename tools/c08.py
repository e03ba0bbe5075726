"""C08: applying a function does not depend on how arguments are grouped (Heap.tla application histories)."""
import sys
import vt, heapgen


def body(c):
    k = 10 if c.thorough else 1
    asan, plain = vt.build('asan'), vt.build('plain')
    hist = heapgen.histories(c.seed * 7919 + 8, [('apply', 2500 * k, 10, 100), ('graph', 300 * k, 50, 150)])
    ss = heapgen.scripts(c, 'HeapGen', hist, timeout=2400)
    n = 0
    for info, part in ((plain, ss), (asan, {i: s for i, s in ss.items() if i % 4 == 0})):
        exe = vt.harness(info, 'heaprun', ['heaprun.c'])
        res = heapgen.run(c, exe, part)
        n += len(res)
        heapgen.judge(c, exe, part, res, lambda m: not heapgen.LATE.search(m), 'application')
        if c.violations:
            break
    lines = [l for s in ss.values() for l in s]
    cnt = lambda p: sum(1 for l in lines if l.startswith(p))
    c.cov.update(traces_validated_against_impl=n, samples=len(hist), applications=cnt('apply ') + cnt('call '),
                 tail_calls=cnt('tail '), bodies=cnt('enter '))
    if c.cov['bodies'] < 2 * len(hist) or c.cov['tail_calls'] < len(hist) // 2:
        raise vt.CheckError('vacuous histories')


if __name__ == '__main__':
    sys.exit(vt.main('C08', body))
