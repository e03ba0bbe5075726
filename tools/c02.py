"""C02: compiled code behaves as FbleEval.tla specifies, exactly as interpreted code does."""
import sys
import vt, lang, fble, earlygen, listgen

WHAT = {'outcome', 'abort', 'profile', 'static'}
OPTS = [dict(), dict(odd=0.8), dict(abort=0.9), dict(odd=0.5, abort=0.8, nodes=60), dict(lists=1, lit=1, odd=0.3)]


def first(g, got, root):
    """The text of the run-time error a program ends with."""
    return ([m[3] for m in fble.messages(got['E'], g, root) if m[0] == 'error'] or [None])[0]


def body(c):
    n = 2500 if c.thorough else 500
    ps = [lang.program(i, (c.seed * 101 + 2) * 1000003 + i, OPTS[i % len(OPTS)]) for i in range(n)]
    ps += [earlygen.program(n + i, (c.seed * 101 + 22) * 1000003 + i) for i in range(n)]
    ps += [listgen.program(2 * n + i, (c.seed * 101 + 23) * 1000003 + i) for i in range(n // 5)]
    s = lang.Suite(c, ps, timeout=2500 if c.thorough else 700)
    a = s.compiled('plain', WHAT)
    b = s.interpret('plain', WHAT, 'p')
    # the same run-time error
    for g in ps:
        if g['id'] in a and g['id'] in b and a[g['id']]['R'] == b[g['id']]['R'] == 'abort':
            x, y = [first(g, r[g['id']], s.root) for r in (a, b)]
            if x != y and len(c.violations) < 8:
                c.violation('compiled: %s; interpreted: %s' % (x, y), lang.replay(g, s.exp[g['id']], a[g['id']], s.root))
            c.cov['errors_compared'] = c.cov.get('errors_compared', 0) + 1
    s.need(value=30, abort=15)


if __name__ == '__main__':
    sys.exit(vt.main('C02', body))
