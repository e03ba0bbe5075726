"""C20: warnings name exactly the unused variables (Unused in FbleStatic.tla)."""
import sys
import vt, lang, libprog, namegen

OPTS = [dict(warn=0.9), dict(warn=0.5, poly=1), dict(nodes=60, mods=1, warn=1), dict(odd=0.5, warn=0.7), dict(warn=0.1)]


def body(c):
    n = 6000 if c.thorough else 1000
    ps = [lang.program(i, (c.seed * 101 + 20) * 1000003 + i, OPTS[i % len(OPTS)], fuel=0 if i % 4 else 600) for i in range(n)]
    s = lang.Suite(c, ps, timeout=2500 if c.thorough else 700)
    s.interpret('plain', {'warn', 'outcome'})
    s.interpret('asan', {'warn'}, progs=[p for i, p in enumerate(ps) if i % 4 == 1])
    s.need(accepted=40, value=5)
    # nested let groups over few names
    qs = [namegen.program(i, (c.seed * 101 + 21) * 1000003 + i) for i in range(n)]
    t = lang.Suite(c, qs, tag='q', timeout=2500 if c.thorough else 700)
    t.interpret('plain', {'warn', 'outcome'})
    c.cov['warnings_in_groups'] = sum(len(t.exp[g['id']].get('w', ())) for g in qs)
    # the modules of the packages with names exchanged
    ls = libprog.mutants(c, 1200 if c.thorough else 60, c.seed * 101 + 22, limit=30000 if c.thorough else 8000, names=True)
    u = lang.Suite(c, ls, tag='l', timeout=2500 if c.thorough else 700)
    u.interpret('plain', {'warn', 'outcome'})
    c.cov['library_modules_changed'] = len(ls)
    c.cov['library_warnings'] = sum(len(u.exp[g['id']].get('w', ())) for g in ls)
    c.cov['warnings'] = sum(len(s.exp[g['id']].get('w', ())) for g in ps)
    if c.cov['warnings'] < n:
        raise vt.CheckError('vacuous corpus: %d warnings' % c.cov['warnings'])


if __name__ == '__main__':
    sys.exit(vt.main('C20', body))
