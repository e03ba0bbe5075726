"""Loops written with tail calls in many ways.  A loop is a function of four digits that say how often it turns."""
import random

BASE = 8

PRE = """@ Unit@ = *(); Unit@ Unit = Unit@();
@ Bool@ = +(Unit@ true, Unit@ false); Bool@ True = Bool@(true: Unit), Bool@ False = Bool@(false: Unit), Bool@ Yes = Bool@(true: Unit);
@ D@ = +(%s);
@ N@ = *(D@ a, D@ b, D@ c, D@ d);
@ M@ = +(Unit@ none, N@ some);
@ L@ = +(C@ cons, Unit@ nil), @ C@ = *(Bool@ head, L@ tail);
@ P@ = *(Bool@ one, Bool@ two);
@ F@ = (Bool@) { Bool@; };
@ Big@ = *(%s);
@ X@ = +(Unit@ nil, Y@ y), @ Y@ = *(X@ x, (Unit@) { X@; } f);
@ S@ = *(Bool@ b, P@ p, L@ l, F@ f, D@ e);
@ Q@ = *(N@ n, S@ s);
@ K@ = %%();
""" % (', '.join('Unit@ d%d' % i for i in range(BASE)), ', '.join('Bool@ f%d' % i for i in range(40)))

HELP = """(D@) { D@; } pred = (D@ d) { d.?(%s); };
(N@) { M@; } dec = (N@ n) {
  n.d.?(d0: n.c.?(d0: n.b.?(d0: n.a.?(d0: M@(none: Unit), : M@(some: N@(pred(n.a), Last, Last, Last))),
    : M@(some: N@(n.a, pred(n.b), Last, Last))), : M@(some: N@(n.a, n.b, pred(n.c), Last))), : M@(some: N@(n.a, n.b, n.c, pred(n.d))));
};
(Bool@) { Bool@; } not = (Bool@ b) { b.?(true: False, false: True); };
(Bool@, Bool@) { Bool@; } and = (Bool@ b, Bool@ c) { b.?(true: c, false: False); };
(Bool@, L@) { L@; } push = (Bool@ b, L@ l) {
  L@(cons: C@(b, l.?(nil: l, : l.cons.tail.?(nil: l, : L@(cons: C@(l.cons.head, L@(cons: C@(l.cons.tail.cons.head, L@(nil: Unit)))))))));
};
(L@) { Bool@; } head = (L@ l) { l.?(nil: False, : l.cons.head); };
(L@) { L@; } list = (L@ l) { l; };
<@>%% id = <@ A@> (A@ x) { x; };
<@, @>%% const = <@ A@, @ B@> (A@ x, B@ _y) { x; };
<@, @>%% apply = <@ A@, @ B@> ((A@) { B@; } f, A@ x) { f(x); };
<@>%% with = <@ A@> (Bool@ b, (Bool@) { A@; } k) { k(b); };
(Bool@, F@) { F@; } mk = (Bool@ c, F@ _f) { c.?(true: (Bool@ x) { x.?(true: c, false: True); }, false: not); };
(Bool@) { Big@; } big = (Bool@ b) { Big@(%s); };
""" % (', '.join('d%d: D@(d%d: Unit)' % (i, (i - 1) % BASE) for i in range(BASE)), ', '.join('b' if i % 3 else 'True' for i in range(40)))


class Loops:
    def __init__(self, r):
        self.r = r
        self.n = 0
        self.extra = []

    def fresh(self, b):
        self.n += 1
        return b + str(self.n)

    # ------------------------------------------------------------- values from the state s (and what else is in scope)
    def bool(self, sc, d=2):
        r = self.r
        c = r.random()
        if d <= 0 or c < .3:
            return r.choice(sc + ['True', 'False', 's.b', 's.p.one', 's.p.two'])
        if c < .45:
            return 'not(%s)' % self.bool(sc, d - 1)
        if c < .55:
            return 'and(%s, %s)' % (self.bool(sc, d - 1), self.bool(sc, d - 1))
        if c < .65:
            return 's.f(%s)' % self.bool(sc, d - 1)
        if c < .75:
            return 'head(s.l)'
        if c < .85:
            return 's.e.?(d0: %s, : %s)' % (self.bool(sc, d - 1), self.bool(sc, d - 1))
        if c < .9:
            return 'with<Bool@>(%s, (Bool@ q) { %s; })' % (self.bool(sc, d - 1), self.bool(sc + ['q'], d - 1))
        return '%s.?(true: %s, false: %s)' % (self.bool(sc, d - 1), self.bool(sc, d - 1), self.bool(sc, d - 1))

    def state(self, sc):
        r = self.r
        fs = dict(b=lambda: self.bool(sc), p=lambda: 'P@(%s, %s)' % (self.bool(sc), self.bool(sc)),
                  l=lambda: r.choice(['push(%s, s.l)' % self.bool(sc), 'list[%s]' % ', '.join(self.bool(sc, 1) for _ in range(r.randint(0, 4)))]),
                  f=lambda: r.choice(['mk(%s, s.f)' % self.bool(sc), 'not', '(Bool@ x) { x.?(true: %s, false: x); }' % r.choice(['True', 'x'] + sc),
                                      'and(%s)' % self.bool(sc)]),
                  e=lambda: 'pred(s.e)')
        k = r.sample('bplfe', r.randint(1, 5))
        if len(k) == 5:
            return 'S@(%s)' % ', '.join(fs[x]() for x in 'bplfe')
        if r.random() < .1:
            return 's'
        return 's.@(%s)' % ', '.join('%s: %s' % (x, fs[x]()) for x in sorted(k, key='bplfe'.index))

    def garbage(self, sc):
        """Statements that make something that is dropped; the names of booleans they define."""
        r = self.r
        c = r.randrange(9)
        x = self.fresh('g')
        if c == 0:
            return 'P@ %s = P@(%s, %s);' % (x, self.bool(sc), self.bool(sc)), ['%s.%s' % (x, r.choice(['one', 'two']))]
        if c == 1:
            return 'Big@ %s = big(%s);' % (x, self.bool(sc)), ['%s.f%d' % (x, r.randrange(40))]
        if c == 2:
            y = self.fresh('y')
            return ('X@ %s = X@(y: %s), Y@ %s = Y@(%s, (Unit@ _u) { %s; });' % (x, y, y, x, x),
                    ['%s.?(nil: True, : False)' % x, '%s.f(Unit).?(nil: False, : True)' % y])
        if c == 3:
            return 'F@ %s = (Bool@ v) { v.?(true: %s, false: True); };' % (x, self.bool(sc)), ['%s(%s)' % (x, self.bool(sc))]
        if c == 4:
            return 'L@ %s = list[%s];' % (x, ', '.join(self.bool(sc, 1) for _ in range(r.choice([0, 3, 12])))), ['head(%s)' % x]
        if c == 5:
            # functions that refer to each other
            y = self.fresh('y')
            return ('F@ %s = (Bool@ v) { v.?(true: %s, false: %s(Yes)); }, F@ %s = (Bool@ v) { v.?(true: False, false: %s(Yes)); };'
                    % (x, self.bool(sc), y, y, x), ['%s(False)' % x, '%s(%s)' % (y, self.bool(sc))])
        if c == 6:
            return '%% %s = %s;' % (x, self.bool(sc, 3)), [x]
        if c == 7:
            # an inner loop, not at the end
            return 'Bool@ %s = spin(N@(D@(d0: Unit), D@(d0: Unit), D@(d0: Unit), s.e), %s);' % (x, self.bool(sc)), [x]
        return '(Bool@, Bool@) { Bool@; } %s0 = (Bool@ v, Bool@ w) { v.?(true: w, false: %s); }; %% %s = %s0(%s);' % (
            x, self.bool(sc), x, x, self.bool(sc)), ['%s(%s)' % (x, self.bool(sc))]

    # ------------------------------------------------------------- ends of a turn: statements whose value is the next turn's
    def go(self, sc):
        """The next turn, with the counter m."""
        r = self.r
        f = r.choice(self.loops)
        st = self.state(sc)
        c = r.random()
        name, kind = f
        if kind == 'pair':
            call = ['%s(m, %s)' % (name, st), '%s(m)(%s)' % (name, st)]
        elif kind == 'flip':
            call = ['%s(%s, m)' % (name, st)]
        elif kind == 'solo':
            a = 'Q@(m, %s)' % st
            call = ['%s(%s)' % (name, a), 'id<(Q@) { R@; }>(%s)(%s)' % (name, a), 'const<(Q@) { R@; }, Bool@>(%s, %s)(%s)' % (name, self.bool(sc), a),
                    'apply<Q@, R@>(%s, %s)' % (name, a), 'id<((Q@) { R@; }, Q@) { R@; }>(apply<Q@, R@>)(%s, %s)' % (name, a)]
        else:
            call = ['%s(%s)(%s)(m)' % (name, st, self.bool(sc)), '%s(%s, %s, m)' % (name, st, self.bool(sc)), '%s(%s, %s)(m)' % (name, st, self.bool(sc))]
        if self.grow and r.random() < .5:
            # the turn is not the last thing, or holds on to the one before
            return '{ R@ w = %s; w; }' % call[0]
        if c < .5:
            return r.choice(call)
        if kind == 'pair' and c < .58:
            return 'apply<S@, R@>(%s(m), %s)' % (name, st)
        if kind == 'pair' and c < .64:
            return 'id<(N@, S@) { R@; }>(%s)(m, %s)' % (name, st)
        if kind == 'pair' and c < .7:
            return '%s.?(true: %s, false: %s)(m, %s)' % (self.bool(sc), name, r.choice([n for n, k in self.loops if k == 'pair']), st)
        if c < .76:
            return 'K@.<R@>(%s)' % call[0]
        if kind == 'pair' and c < .82:
            return 'const<(N@, S@) { R@; }, Bool@>(%s, %s)(m, %s)' % (name, self.bool(sc), st)
        if kind == 'pair' and c < .88:
            return '@(a: %s, u: Unit).a(m, %s)' % (name, st)
        if c < .94:
            return '{ %s; }' % call[-1]
        return r.choice(call)

    def tail(self, sc, d):
        r = self.r
        c = r.random()
        if d <= 0 or c < .2:
            return self.go(sc) + ';'
        if c < .45:
            g, bs = self.garbage(sc)
            return '%s %s' % (g, self.tail(sc + bs, d - 1))
        if c < .55:
            return '%s.?(true: %s, false: { %s });' % (self.bool(sc), self.go(sc), self.tail(sc, d - 1))
        if c < .65:
            return '%s.?(false: { %s }); %s' % (self.bool(sc), self.tail(sc, d - 2), self.tail(sc, d - 1))
        if c < .75:
            x = self.fresh('q')
            return 'Bool@ %s <- %s(%s); %s' % (x, r.choice(['with<R@>', 'with<R@>', 'weth']), self.bool(sc), self.tail(sc + [x], d - 1))
        if c < .85:
            k = self.fresh('k')
            return '(Unit@) { R@; } %s = (Unit@ _u) { %s }; %s(Unit);' % (k, self.tail(sc, d - 1), k)
        if c < .92:
            k = self.fresh('k')
            return '(Bool@ %s, S@ s) { %s }(%s, %s);' % (k, self.tail(sc + [k], d - 1), self.bool(sc), self.state(sc)) \
                if False else '%% %s = (Bool@ %sv, S@ s) { %s }; %s(%s, %s);' % (k, k, self.tail(sc + [k + 'v'], d - 1), k, self.bool(sc), self.state(sc))
        if c < .96:
            # a loop of its own inside
            k = self.fresh('k')
            return '(M@, S@) { R@; } %s = (M@ w, S@ s) { w.?(none: { %s }, : %s(M@(none: Unit), %s)); }; %s(M@(some: m), s);' % (
                k, self.tail([b for b in sc], d - 1), k, 's', k)
        return '{ %s };' % self.tail(sc, d - 1)

    def loop(self, f, d):
        name, kind = f
        r = self.r
        sc = []
        head = dict(pair='(N@ n, S@ s)', flip='(S@ s, N@ n)', solo='(Q@ q)', three=r.choice(['(S@ s, Bool@ z, N@ n)', '(S@ s) (Bool@ z) (N@ n)', '(S@ s) { (Bool@ z, N@ n)'])) [kind]
        close = '};' if head.count('{') else ''
        if kind == 'three':
            sc = ['z']
        if kind == 'solo':
            return self.solo(name, d)
        end = 'R@(%s)' % ('s.b, s.p, %s' % self.bool(sc))
        if r.random() < .5:
            body = 'M@ x = dec(n); x.?(none: %s); N@ m = x.some; %s' % (end, self.tail(sc, d))
        else:
            body = 'dec(n).?(none: %s, : { N@ m = dec(n).some; %s });' % (end, self.tail(sc, d))
        g, bs = self.garbage(sc)
        if r.random() < .3:
            body = g + ' ' + body
        typ = dict(pair='(N@, S@) { R@; }', flip='(S@, N@) { R@; }', three='(S@, Bool@, N@) { R@; }')[kind]
        return '%s %s = %s { %s }%s' % (typ, name, head, body, '; }' if close else '')

    def solo(self, name, d):
        body = 'M@ x = dec(q.n); S@ s = q.s; x.?(none: R@(s.b, s.p, s.p.one)); N@ m = x.some; %s' % self.tail([], d)
        return '(Q@) { R@; } %s = (Q@ q) { %s }' % (name, body)

    def module(self):
        r = self.r
        k = r.choice([1, 1, 2, 3])
        self.grow = r.random() < .12
        self.loops = [('lp%d' % i, r.choice(['pair', 'pair', 'solo']) if i == 0 else r.choice(['pair', 'flip', 'three', 'solo'])) for i in range(k)]
        defs = ',\n'.join(self.loop(f, r.choice([1, 2, 3, 4])) for f in self.loops)
        start = 'N@(a, b, c, d), S@(True, P@(True, False), list[True], not, D@(d5: Unit))'
        start = 'lp0(%s)' % ('Q@(%s)' % start if self.loops[0][1] == 'solo' else start)
        fun = '(D@ a, D@ b, D@ c, D@ d) { %s; }' % start
        style = r.random()
        text = PRE + '@ R@ = *(Bool@ b, P@ p, Bool@ c);\nD@ Last = D@(d%d: Unit);\n' % (BASE - 1) + HELP
        text += '(Bool@, (Bool@) { R@; }) { R@; } weth = (Bool@ b, (Bool@) { R@; } k) { b.?(true: k(b), false: k(b)); };\n'
        text += '(N@, Bool@) { Bool@; } spin = (N@ n, Bool@ b) { M@ x = dec(n); x.?(none: b); spin(x.some, not(b)); };\n'
        if style < .6:
            text += defs + ';\n(D@, D@, D@, D@) { R@; } fun = ' + fun + ';\n'
        else:
            # the loops inside a function, so that they hold on to its variables
            text += '(D@, D@, D@, D@) { R@; } fun = (D@ a, D@ b, D@ c, D@ d) { Bool@ t = a.?(d0: True, : False);\n' + defs.replace('True', 't') + \
                ';\n%s;\n};\n' % start
        return text


def digits(n):
    out = []
    for _ in range(4):
        out.insert(0, n % BASE)
        n //= BASE
    return out


SMALL, SMALL2 = 6, 13
BIG, BIG2 = 500, 4000


def wrap(s, width=900):
    """The text with lines that are not too long (there are no comments or quotes in it)."""
    out = []
    for line in s.split('\n'):
        while len(line) > width:
            k = line.rfind(' ', 0, width)
            out.append(line[:k])
            line = line[k + 1:]
        out.append(line)
    return '\n'.join(out)


def loop(pid, seed):
    """The function, and programs that turn it a few times (for the specification)."""
    r = random.Random(seed)
    text = wrap(Loops(r).module())
    top = 'W%d' % pid
    p = [top, 'Loop']
    main = dict(id=pid, fuel=0, main=p, fs=[(p, text + 'fun;\n')])
    few = []
    for k, n in enumerate([SMALL, SMALL2]):
        q = [top, 'Few%d' % k]
        few.append(dict(id=pid * 2 + k, fuel=6000, main=q, space=1,
                        fs=[(q, text + 'fun(%s);\n' % ', '.join('D@(d%d: Unit)' % d for d in digits(n)))]))
    return main, few


if __name__ == '__main__':
    import sys
    m, f = loop(1, int(sys.argv[1]))
    print(f[1]['fs'][0][1])
