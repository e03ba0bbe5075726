"""C11: a program's profile counts its evaluations (FbleEval.tla), and profiling does not change its result."""
import sys
import vt, lang, listgen

OPTS = [dict(abort=0.1), dict(abort=0, nodes=250), dict(abort=0, mods=5), dict(abort=0.05, poly=1, odd=0.4)]


def body(c):
    n = 5000 if c.thorough else 600
    ps = [lang.program(i, (c.seed * 101 + 11) * 1000003 + i, OPTS[i % len(OPTS)]) for i in range(n)]
    ps += [listgen.program(n + i, (c.seed * 101 + 111) * 1000003 + i) for i in range(n // 8)]
    s = lang.Suite(c, ps, timeout=2500 if c.thorough else 700)
    s.interpret('plain', {'outcome', 'abort', 'profile'}, 'p')
    s.interpret('plain', {'outcome', 'abort'}, '-')
    s.progs = ps[:1500] if c.thorough else ps[:200] + ps[-40:]
    s.compiled('plain', {'outcome', 'abort', 'profile'}, 'p')
    s.compiled_again({'outcome', 'abort'}, '-')
    s.progs = ps
    s.need(value=50)
    c.cov['blocks'] = sum(len(s.exp[g['id']].get('p', ())) for g in ps)


if __name__ == '__main__':
    sys.exit(vt.main('C11', body))
