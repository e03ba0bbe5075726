"""C03: exactly the programs that satisfy the static rules of FbleStatic.tla are accepted."""
import sys
import vt, lang, libprog, rulegen

WHAT = {'static', 'where'}
OPTS = [dict(), dict(poly=1), dict(nodes=60, mods=1), dict(viol=0.3, pkg=0.6), dict(lists=1, lit=1)]


def body(c):
    n = 8000 if c.thorough else 1200
    ps = [lang.program(i, (c.seed * 101 + 3) * 1000003 + i, OPTS[i % len(OPTS)], mutate=1 if i % 8 else 0, keep=i % 8 > 2, fuel=0, style=0)
          for i in range(n)]
    # many small expressions, each in a line of its own
    k = 1200 if c.thorough else 220
    qs = [rulegen.program(i, (c.seed * 101 + 31) * 1000003 + i, depth=3 if i % 3 == 0 else 2) for i in range(k)]
    t = lang.Suite(c, qs, tag='q', timeout=2500 if c.thorough else 700)
    bad = [len(t.wrong(g) or ()) for g in qs]
    c.cov['expressions_wrong'], c.cov['expressions_right'] = sum(bad), 14 * k - sum(bad)
    t.lines('plain')
    t.lines('asan')
    if not c.violations and not 3 * k < sum(bad) < 11 * k:
        raise vt.CheckError('vacuous corpus: %d of %d expressions are wrong' % (sum(bad), 14 * k))
    s = lang.Suite(c, ps, timeout=2500 if c.thorough else 700)
    s.interpret('plain', WHAT)
    s.interpret('asan', WHAT, progs=[p for i, p in enumerate(ps) if i % 2])
    # the modules of the packages, with small changes
    ls = libprog.mutants(c, 1500 if c.thorough else 70, c.seed * 101 + 32, limit=30000 if c.thorough else 10000)
    u = lang.Suite(c, ls, tag='l', timeout=2500 if c.thorough else 700)
    c.cov['library_modules_changed'] = len(ls)
    c.cov['library_rejected'] = u.n['rejected']
    u.interpret('plain', WHAT)
    s.need(accepted=10, rejected=30)


if __name__ == '__main__':
    sys.exit(vt.main('C03', body))
