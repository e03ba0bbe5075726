"""C09: loops written with tail calls run in constant memory (FbleEval.tla says which are bounded), interpreted and compiled."""
import json, os, sys
import vt, lang, fble, loopgen

SLACK, PSLACK, STACK = 12000, 24000, 4000       # bytes; one word per turn would be 28000


def body(c):
    n = 700 if c.thorough else 90
    mains, few = [], []
    for i in range(n):
        m, fs = loopgen.loop(i, (c.seed * 101 + 9) * 1000003 + i)
        mains.append(m)
        few += fs
    s = lang.Suite(c, few, timeout=2500 if c.thorough else 700)
    fble.put(s.root, mains)
    s.interpret('plain', {'outcome', 'abort', 'static'})
    bounded = []
    for g in mains:
        a, b = s.exp[g['id'] * 2], s.exp[g['id'] * 2 + 1]
        if a['o'] != 'value' or b['o'] != 'value':
            continue
        if b['md'] <= a['md'] + 2 and b['mw'] <= a['mw'] + 6:
            g['want'] = [a['v'], b['v']]
            bounded.append(g)
    c.cov['loops'], c.cov['loops_bounded'] = n, len(bounded)
    if not c.violations and (len(bounded) * 3 < n * 2 or len(bounded) == n):
        raise vt.CheckError('vacuous corpus: %d of %d loops are bounded, %s' % (len(bounded), n, dict(s.n)))
    lists = ';'.join(','.join(map(str, loopgen.digits(k))) for k in (loopgen.SMALL, loopgen.SMALL2, loopgen.BIG, loopgen.BIG2))

    def lines(gs, flags):
        return ['%d\t%s\t%s\t%s\t%s\n' % (g['id'], flags, fble.modref(g['main']), ';'.join(g['want'] + ['-', '-']), lists) for g in gs]

    def wrong(g, got, mode, flags):
        if got['X'] != 0 or got['R'] != 'value' or len(got['M']) != 4:
            return '%s: ends with wait status %s, %s: %s' % (mode, got['X'], got['R'], got['E'][-300:])
        for k in (0, 1):
            if got['Vs'][k] != g['want'][k]:
                return '%s: value %s after %d turns, specified %s' % (mode, got['Vs'][k], (loopgen.SMALL, loopgen.SMALL2)[k], g['want'][k])
        (m1, s1), (m2, s2) = got['M'][2], got['M'][3]
        if m2 > m1 + (PSLACK if 'p' in flags else SLACK):
            return '%s: at most %d bytes in %d turns of a loop, %d bytes in %d turns' % (mode, m1, loopgen.BIG, m2, loopgen.BIG2)
        if s2 > s1 + STACK:
            return '%s: at most %d bytes of stack in %d turns of a loop, %d bytes in %d turns' % (mode, s1, loopgen.BIG, s2, loopgen.BIG2)

    def judge(exe, gs, mode, flags):
        res = fble.run(c, exe, s.root, lines(gs, flags))
        bad = 0
        for g in gs:
            m = wrong(g, res[g['id']], mode, flags)
            if not m:
                continue
            bad += 1
            if bad > 5:
                break
            again = fble.run(c, exe, s.root, lines([g], flags))[g['id']]
            m2 = wrong(g, again, mode, flags)
            if not m2:
                raise vt.CheckError('not reproducible: %s' % m)
            c.violation(m2, lang.replay(g, dict(values=g['want'], arguments=lists), again, s.root))
        c.cov['traces_validated_against_impl'] += len(gs)
        ms = [res[g['id']]['M'] for g in gs if len(res[g['id']]['M']) == 4]
        c.cov['largest_growth_%s_%s' % (mode, flags)] = [max([x[3][k] - x[2][k] for x in ms], default=0) for k in (0, 1)]

    info = vt.build('plain')
    exe = vt.harness(info, 'fblerun', ['fblerun.c'])
    judge(exe, bounded, 'interpreted', 'm')
    judge(exe, bounded, 'interpreted', 'mp')
    exe, rec, bad = fble.compile_all(c, info, bounded, s.root)
    gs = [g for g in bounded if rec[g['id']]['R'] == 'compiled' and rec[g['id']]['X'] == 0 and g['id'] not in bad]
    if len(gs) < len(bounded):
        g = [g for g in bounded if g not in gs][0]
        c.violation('compiling fails: %s' % (rec[g['id']]['E'][-200:] or bad.get(g['id'])), lang.replay(g, {'o': 'compiles'}, rec[g['id']], s.root))
    judge(exe, gs, 'compiled', 'm')
    judge(exe, gs, 'compiled', 'mp')


if __name__ == '__main__':
    sys.exit(vt.main('C09', body))
