"""C21: every notation denotes what FbleSyntax.tla says, and the rest is rejected as a syntax error."""
import collections, sys
import vt, lang, fble, sugargen

WHAT = {'outcome', 'abort', 'static', 'where', 'load'}


def body(c):
    k = 10 if c.thorough else 1
    gens = [(sugargen.sweet, 260 * k), (sugargen.short, 700 * k), (sugargen.damaged, 330 * k),
            (lambda i, s: lang.program(i, s, dict(poly=i % 2, lists=1, lit=1, size=1), style=1, mutate=i % 2), 120 * k), (sugargen.letters, 160 * k)]
    ps = []
    for j, (g, n) in enumerate(gens):
        for i in range(n):
            p = g(len(ps), (c.seed * 101 + 210 + j) * 1000003 + i)
            p['gen'] = j
            if max(map(len, p['fs'][-1][1].split('\n'))) < 990:
                ps.append(p)
    s = lang.Suite(c, ps, timeout=3000 if c.thorough else 700)
    t = collections.Counter((g['gen'], s.exp[g['id']]['o']) for g in ps)
    c.cov['outcomes_by_generator'] = {'%d %s' % k: v for k, v in sorted(t.items())}
    s.interpret('plain', WHAT)
    s.interpret('asan', WHAT, progs=ps if not c.thorough else ps[::2])
    if not c.violations and (t[0, 'value'] * 2 < gens[0][1] or t[4, 'value'] * 2 < gens[4][1] or not all(t[j, 'unloadable'] * 5 > gens[j][1] for j in (1, 2))
                             or t[1, 'accepted'] + t[1, 'value'] < gens[1][1] // 20):
        raise vt.CheckError('vacuous corpus: %s' % t)


if __name__ == '__main__':
    sys.exit(vt.main('C21', body))
