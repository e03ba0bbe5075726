"""C04: types are equal exactly when they unfold to the same tree (TEq of FbleStatic.tla)."""
import collections, sys
import vt, lang, fble, typegen


def body(c):
    n = 1500 if c.thorough else 260
    ps = [typegen.program(i, (c.seed * 101 + 4) * 1000003 + i) for i in range(n)]
    s = lang.Suite(c, ps, timeout=2500 if c.thorough else 700)
    tally = collections.Counter()

    for g in ps:
        e = s.exp[g['id']]
        bad = s.wrong(g)
        if e['o'] == 'accepted':
            tally['equal'] += 12
        elif e['o'] == 'rejected':
            if bad is None:
                tally['programs with wrong definitions'] += 1
            else:
                tally['different'] += len(bad)
                tally['equal'] += 12 - len(bad)
        else:
            tally[e['o']] += 1
    c.cov['pairs_equal'], c.cov['pairs_different'] = tally['equal'], tally['different']
    s.lines('plain')
    s.lines('asan')
    if not c.violations and (tally['equal'] < 3 * n or tally['different'] < 2 * n):
        raise vt.CheckError('vacuous corpus: %s' % dict(tally))
    c.cov['wrong_definitions'] = tally['programs with wrong definitions']


if __name__ == '__main__':
    sys.exit(vt.main('C04', body))
