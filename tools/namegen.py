"""Programs of nested let groups and functions over few names, with arbitrary references among them."""
import random

POOL = ['a', 'b', 'c', 'd', '_e', 'f', 'g', 'h']
TPOOL = ['A', 'B', 'C', '_D', 'E', 'F']


class Names:
    def __init__(self, r):
        self.r = r
        self.left = 80

    def bool(self, sc, d):
        """An expression of type Bool@."""
        r = self.r
        bs = [n for n, k in sc.items() if k == 'b']
        fs = [n for n, k in sc.items() if k == 'f']
        c = r.random()
        self.left -= 1
        if self.left < 0:
            d = 0
        if d <= 0 or c < .2:
            return r.choice(bs or ['True'])
        if c < .5 and fs:
            return '%s(%s)' % (r.choice(fs), self.bool(sc, d - 1))
        if c < .6:
            return '%s.?(true: %s, false: %s)' % (r.choice(bs or ['True']), self.bool(sc, d - 1), self.bool(sc, d - 1))
        if c < .65:
            return '{ %s x0 <- %s; %s; }' % (self.btype(sc), '(%s _k) { _k(%s); }' % (self.ftype(sc), self.bool(sc, d - 2)),
                                            self.bool({**sc, 'x0': 'b'}, d - 1))
        if c < .72:
            # a struct of the values, by name
            n = r.choice(bs) if bs else None
            return '@(%s).%s' % (n, n) if n else 'True'
        if c < .8:
            return self.types(sc, d)
        return self.group(sc, d)

    def btype(self, sc):
        ts = [n for n, k in sc.items() if k == 't']
        bs = [n for n, k in sc.items() if k == 'b']
        c = self.r.random()
        if ts and c < .4:
            return self.r.choice(ts) + '@'
        if bs and c < .5:
            return '@<%s>' % self.r.choice(bs)
        return 'Bool@'

    def ftype(self, sc):
        fs = [n for n, k in sc.items() if k == 'f']
        if fs and self.r.random() < .1:
            return '@<%s>' % self.r.choice(fs)
        return '(%s) { %s; }' % (self.btype(sc), self.btype(sc))

    def func(self, sc, d):
        x = self.r.choice(POOL)
        return '(%s %s) { %s; }' % (self.btype(sc), x, self.bool({**sc, x: 'b'}, d - 1))

    def group(self, sc, d):
        r = self.r
        k = r.choice([1, 1, 2, 3, 4, 5, 6])
        ns = r.sample(POOL, k)
        kinds = {n: 'f' if k > 1 or r.random() < .6 else 'b' for n in ns}
        inner = {**sc, **kinds}
        bs = []
        for n in ns:
            ty = (self.ftype(sc) if kinds[n] == 'f' else self.btype(sc)) if r.random() < .7 else '%'
            if ty == '%' and kinds[n] == 'f':
                # a binding whose type isn't given can't be used in its group before that is known
                ty = self.ftype(sc)
            if kinds[n] == 'b':
                body = self.bool({**sc}, d - 1) if n not in sc else 'True'
                body = self.bool({q: v for q, v in sc.items() if q != n}, d - 1)
            else:
                body = self.func(inner, d - 1 if k < 4 else min(d - 1, 2))
            bs.append('%s %s = %s' % (ty, n, body))
        return '{ %s; %s; }' % (', '.join(bs), self.bool(inner, d - 1))

    def types(self, sc, d):
        r = self.r
        if r.random() < .5:
            n = r.choice(TPOOL)
            return '{ @ %s@ = %s; %s; }' % (n, self.btype(sc), self.bool({**sc, n: 't'}, d - 1))
        ns = r.sample(TPOOL, r.choice([2, 3, 4, 5]))
        ts = [q for q, k in sc.items() if k in 'ts' and q not in ns] + ns
        bs = ['@ %s@ = *(%s)' % (n, ', '.join('%s@ %s' % (r.choice(ts), f) for f in r.sample('xyz', r.choice([0, 1, 1, 2])))) for n in ns]
        use = r.choice(ns + ['Bool'])
        inner = {**sc, **{n: 's' for n in ns}}
        return '{ %s; (%s@) { Bool@; } _q = (%s@ _r) { True; }; %s; }' % (', '.join(bs), use, use, self.bool(inner, d - 1))


def program(pid, seed):
    r = random.Random(seed)
    G = Names(r)
    top = 'T%d' % pid
    src = ['@ Unit@ = *(); @ Bool@ = +(Unit@ true, Unit@ false); Bool@ True = Bool@(true: Unit@());']
    src.append('(Bool@ in) { %s; };' % G.group({'in': 'b'} if r.random() < .7 else {}, r.choice([3, 4, 5, 6])))
    src = '\n'.join(src).replace(', (', ',\n(').replace('; ', ';\n') + '\n'
    return program(pid, seed + 500009) if max(len(x) for x in src.split('\n')) > 990 else dict(
        id=pid, fuel=0, main=[top, 'Main'], fs=[([top, 'Main'], src)])
