"""C13: each module is evaluated once, after the modules it uses (FbleTrace.tla's Run)."""
import random, sys
import vt, lang, fblegen

ODD = ["M 1", "a.b", "%", "\xc3\xa9", 'q"', "x\\", "_", "M_5f_1", "0"]


def graph(i, seed):
    r = random.Random(seed)
    big = i % 16 == 5
    n = r.choice([25, 40, 60]) if big else r.choice([1, 2, 3, 4, 5, 6, 8, 12])
    top = 'G%d' % i
    names = []
    for k in range(n):
        w = 'M%d' % k if r.random() < 0.8 else r.choice(ODD) + str(k)
        names.append([top, w] if r.random() < 0.6 else [top, r.choice(['S', 'T', 'S x']), w])
    density = r.choice([0.2, 0.4, 0.7])
    if big:
        density = 0
    aborts = 0 if big and i % 32 == 5 else r.choice([0, 0, 0.1, 0.3])
    wide = r.choice([2, 3, 9])
    fs = []
    for k, p in enumerate(names):
        deps = [j for j in range(k + 1, n) if r.random() < density]
        if k + 1 < n and k == 0 and not deps:
            deps = [r.randrange(1, n)]
        if big and k + 1 < n:
            # a long chain, and modules used again far from where they were first used
            deps = [k + 1] + r.sample(range(k + 1, n), min(n - 1 - k, r.choice([0, 1, 1, 2])))
            deps = sorted(set(deps), key=deps.index)
        elif big:
            deps = []
        if not big or r.random() < .3:
            r.shuffle(deps)
        L = ['@ Unit@ = *();', 'Unit@ Unit = Unit@();',
             '@ T@ = +(N@ n, %s), @ N@ = *(T@ l, T@ r);' % ', '.join('Unit@ a%d' % j for j in range(max(n, wide)))]
        if r.random() < 0.2:
            L.reverse() if False else None
        e = 'T@(a%d: Unit)' % k
        body = []
        for j in deps:
            m = ''.join('/' + fblegen.quote(w) for w in names[j]) + '%'
            how = r.choice([4, 5, 6, 8]) if big else r.randrange(8)
            if how <= 2:
                e = 'T@(n: N@(%s, %s))' % ((e, m) if r.random() < 0.5 else (m, e))
            elif how == 3:
                body.append('T@ d%d = %s;' % (j, m))
                e = 'T@(n: N@(%s, d%d))' % (e, j)
            elif how == 4:
                body.append('(Unit@){T@;} f%d = (Unit@ _u) { %s; };' % (j, m))
                if not big and r.random() < 0.5:
                    e = 'T@(n: N@(%s, f%d(Unit)))' % (e, j)
            elif how == 5:
                body.append('@ D%d@ = @<%s>;' % (j, m))
                body.append('D%d@ d%d = T@(a%d: Unit);' % (j, j, k))
            elif how == 8:
                body.append('T@ _d%d = %s;' % (j, m))
            elif how == 6:
                body.append('T@ d%d = T@(a%d: Unit).?(a%d: T@(a0: Unit), : %s);' % (j, k, k, m))
                e = 'T@(n: N@(%s, d%d))' % (e, j) if not big else e
            else:
                body.append('%% d%d = %s;' % (j, m))
                body.append('%% c%d = %s;' % (j, m))
                e = 'T@(n: N@(c%d, N@(%s, d%d).l))' % (j, e, j)
        if r.random() < aborts:
            body.insert(r.randrange(len(body) + 1), 'Unit@ _x = T@(a%d: Unit).a%d;' % (k, (k + 1) % max(n, wide)))
        fs.append((p, '\n'.join(L + body + [e + ';']) + '\n'))
    # a module that nobody references
    if r.random() < 0.5:
        fs.append(([top, 'Lone'], r.choice(['nonsense', '@ Unit@ = *(); @ E@ = +(Unit@ a, Unit@ b); E@(a: Unit@()).b;'])))
    return dict(id=i, fuel=400, main=names[0], fs=fs)


def body(c):
    n = 4000 if c.thorough else 700
    s = lang.Suite(c, [graph(i, (c.seed * 101 + 13) * 1000003 + i) for i in range(n)], timeout=1500)
    what = {'outcome', 'abort', 'order', 'profile', 'static', 'load'}
    s.interpret('plain', what, 'p')
    s.interpret('asan', what - {'profile'})
    s.progs = s.progs[:1500 if c.thorough else 250]
    s.compiled('plain', what, 'p')
    s.progs = s.progs[:1]
    s.need()
    if not c.violations and (s.n['value'] < n // 3 or s.n['abort'] < n // 10 or s.n['rejected'] + s.n['unloadable']):
        raise vt.CheckError('vacuous corpus: %s' % dict(s.n))


if __name__ == '__main__':
    sys.exit(vt.main('C13', body))
