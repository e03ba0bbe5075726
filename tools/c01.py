"""C01: programs evaluate to the value, or abort as, the language definition assigns (FbleEval.tla)."""
import sys
import vt, lang, earlygen, listgen

WHAT = {'outcome', 'abort', 'static'}
OPTS = [dict(), dict(abort=0.9, warn=0.1), dict(abort=0.7, nodes=60, mods=1), dict(poly=0, size=5, abort=0.3), dict(lists=1, lit=0.8)]


def body(c):
    n = 6000 if c.thorough else 900
    ps = [lang.program(i, (c.seed * 101 + 1) * 1000003 + i, OPTS[i % len(OPTS)]) for i in range(n)]
    # recursively defined values used early
    ps += [earlygen.program(n + i, (c.seed * 101 + 12) * 1000003 + i) for i in range(n // 2)]
    ps += [listgen.program(2 * n + i, (c.seed * 101 + 13) * 1000003 + i) for i in range(n // 6)]
    s = lang.Suite(c, ps, timeout=2500 if c.thorough else 700)
    s.interpret('plain', WHAT)
    s.interpret('asan', WHAT)
    s.need(value=30, abort=15)


if __name__ == '__main__':
    sys.exit(vt.main('C01', body))
