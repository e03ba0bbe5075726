"""C22: abstract values are made and opened only inside their package (cast, seal, unseal in FbleStatic.tla), and keep their value."""
import sys
import vt, lang, packgen


def body(c):
    k = 8 if c.thorough else 1
    n = 300 * k
    ps = [packgen.program(i, (c.seed * 101 + 22) * 1000003 + i) for i in range(n)]
    s = lang.Suite(c, ps, timeout=2500 if c.thorough else 700)
    wrong = [s.wrong(g) for g in ps]
    lost = sum(w is None for w in wrong)
    bad = sum(len(w or ()) for w in wrong)
    c.cov['conversions_wrong'], c.cov['conversions_right'], c.cov['programs_with_wrong_definitions'] = bad, 12 * (n - lost) - bad, lost
    s.lines('plain')
    s.lines('asan')
    # the generator's programs of all kinds with packages, and values through conversions
    qs = [packgen.values(i, (c.seed * 101 + 220) * 1000003 + i) for i in range(150 * k)]
    qs += [lang.program(1000 * k + i, (c.seed * 101 + 221) * 1000003 + i, dict(pkg=1, viol=.5 if i % 2 else 0, size=1), style=0) for i in range(200 * k)]
    t = lang.Suite(c, qs, tag='q', timeout=2500 if c.thorough else 700)
    t.interpret('plain', {'outcome', 'abort', 'static', 'where'})
    t.interpret('asan', {'outcome', 'abort', 'static', 'where'})
    t.progs = t.progs[:90 * k]
    t.compiled('plain', {'outcome', 'abort'})
    if not c.violations and (not 3 * n < bad < 9 * n or lost * 4 > n or t.n['value'] < 200 * k):
        raise vt.CheckError('vacuous corpus: %d wrong of %d, %d without meaning, %s' % (bad, 12 * n, lost, dict(t.n)))


if __name__ == '__main__':
    sys.exit(vt.main('C22', body))
