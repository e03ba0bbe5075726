"""Small programs that use a recursively defined value by various routes, before or after it is defined."""
import random

TYPES = {'B': 'Bool@', 'F': '(Bool@) { Bool@; }', 'G': '(Bool@, Bool@) { Bool@; }', 'S': 'S@', 'U': 'U@', 'L': 'L@'}
PRE = ['@ Unit@ = *(); Unit@ Unit = Unit@(); @ Bool@ = +(Unit@ true, Unit@ false); Bool@ True = Bool@(true: Unit); Bool@ False = Bool@(false: Unit);',
       '@ S@ = *(Bool@ x, (Bool@) { Bool@; } f, Bool@ y); @ U@ = +(Bool@ a, Unit@ b, (Bool@) { Bool@; } c);',
       '@ L@ = +(C@ cons, Unit@ nil), @ C@ = *(Bool@ head, L@ tail);',
       '<@>% id = <@ A@>(A@ x) { x; }; <@>@ Box@ = <@ A@> { *(A@ v); }; <@>@ Opt@ = <@ A@> { +(A@ v, Unit@ n); };']


class Early:
    def __init__(self, r):
        self.r = r
        self.n = 0

    def fresh(self):
        self.n += 1
        return 'v%d' % self.n

    def route(self, t, e, d=2):
        """An expression with the value of e, not looking at it."""
        r = self.r
        T = TYPES[t]
        x = self.fresh()
        while d > 0 and r.random() < .55:
            d -= 1
            k = r.randrange(9)
            if k == 0:
                e = 'id(%s)' % e
            elif k == 1:
                e = 'Box@<%s>(%s).v' % (T, e)
            elif k == 2:
                e = '{ %s %s = %s; %s; }' % (T, x, e, x)
            elif k == 3:
                e = 'Opt@<%s>(v: %s).v' % (T, e)
            elif k == 4:
                e = '%s.?(true: %s, false: %s)' % (r.choice(['True', 'False']), e, e)
            elif k == 5:
                e = '{ (Unit@) { %s; } %s = (Unit@ _u) { %s; }; %s(Unit); }' % (T, x, e, x)
            elif k == 6:
                e = '{ (%s %s) { %s; }; }(%s)' % (T, x, x, e)
            elif k == 7:
                e = '{ (Bool@ _b, %s %s) { %s; }; }(True, %s)' % (T, x, x, e)
            else:
                e = 'True.?(true: %s, false: { %s %s = %s; %s; })' % (e, T, x, e, x)
            x = self.fresh()
        return e

    def use(self, t, e):
        """A Bool@ expression that looks at the value of e."""
        r = self.r
        x = self.fresh()
        b = r.choice(['True', 'False'])
        if r.random() < .3:
            # first into another function
            f = self.fresh()
            inner = self.use(t, x)
            how = r.randrange(3)
            if how == 0:
                return '{ (%s) { Bool@; } %s = (%s %s) { %s; }; %s(%s); }' % (TYPES[t], f, TYPES[t], x, inner, f, e)
            if how == 1:
                return '{ %s %s = %s; (Unit@) { Bool@; } %s = (Unit@ _u) { %s; }; %s(Unit); }' % (TYPES[t], x, e, f, inner, f)
            return '{ %s %s = %s; (Unit@) { Bool@; } %s = (Unit@ _u) { Bool@ %s = %s; %s; }; %s(Unit); }' % (
                TYPES[t], x, e, f, f + 'r', inner, f + 'r', f)
        if t == 'B':
            return r.choice(['%s.?(true: False, false: True)', '%s.?(true: %%s, : True)' % e, 'Opt@<Unit@>(v: %s.true).?(v: True, n: False)',
                             '%s.?(false: False, : True)', '{ %s.?(true: False); True; }']).replace('%s', e)
        if t == 'F':
            return r.choice(['%s(%s)' % (e, b), '{ %% %s = %s(%s); %s; }' % (x, e, b, x),
                             '{ (Bool@ %s) { %s(%s); }; }(%s)' % (x, e, x, b)])
        if t == 'G':
            return r.choice(['%s(%s, True)' % (e, b), '{ (Bool@) { Bool@; } %s = %s(%s); %s(True); }' % (x, e, b, x),
                             '{ (Bool@) { Bool@; } %s = %s(%s); %s; }' % (x, e, b, b), '{ (Bool@ %s) { %s(%s); }; }(%s)(True)' % (x, e, x, b)])
        if t == 'S':
            return r.choice(['%s.x' % e, '%s.y' % e, '%s.f(%s)' % (e, b), '%s.@(x: %s).x' % (e, b), '%s.@(x: True, f: (Bool@ q) { q; }).y' % e,
                             '%s.@(y: %s).f(True)' % (e, b)])
        if t == 'U':
            return r.choice(['%s.a' % e, '%s.c(%s)' % (e, b), '%s.?(a: True, : False)' % e, '%s.?(a: True, b: False, c: True)' % e,
                             '{ Unit@ %s = %s.b; True; }' % ('_' + x, e), '%s.?(b: True, : %s.a)' % (e, e)])
        return r.choice(['%s.?(cons: True, nil: False)' % e, '%s.cons.head' % e, '%s.cons.tail.?(cons: True, nil: False)' % e,
                         '%s.?(cons: %s.cons.head, nil: True)' % (e, e)])

    def value(self, t, g):
        """A value of type t which may refer to the values named in g: (name, type)."""
        r = self.r
        bs = [n for n, k in g if k == 'B'] + ['True', 'False', 'True', 'False']
        fs = [n for n, k in g if k == 'F']
        x = self.fresh()
        if t == 'B':
            return r.choice(bs)
        if t == 'F':
            if fs and r.random() < .3:
                return r.choice(fs)
            n, k = r.choice(g)
            return r.choice(['(Bool@ %s) { %s; }' % (x, x), '(Bool@ %s) { %s.?(true: %s, false: False); }' % (x, x, self.use(k, n)),
                             '(Bool@ _%s) { %s; }' % (x, r.choice(bs))])
        if t == 'G':
            return r.choice(['(Bool@ %s, Bool@ _q) { %s; }' % (x, x), '(Bool@ _p, Bool@ %s) { %s; }' % (x, x)])
        if t == 'S':
            return r.choice(['S@(%s, %s, %s)', '@(x: %s, f: %s, y: %s)']) % (r.choice(bs), self.value('F', g), r.choice(bs))
        if t == 'U':
            return r.choice(['U@(a: %s)' % r.choice(bs), 'U@(b: Unit)', 'U@(c: %s)' % self.value('F', g)])
        ls = [n for n, k in g if k == 'L']
        return r.choice(['L@(nil: Unit)', 'L@(cons: C@(%s, %s))' % (r.choice(bs), r.choice(ls + ['L@(nil: Unit)']))])


def program(pid, seed):
    r = random.Random(seed)
    G = Early(r)
    k = r.choice([1, 1, 1, 2, 3])
    g = [('g%d' % i, r.choice('BFFGSUL')) for i in range(k)]
    lines = list(PRE)
    defs = []
    for n, t in g:
        st = []
        for _ in range(r.choice([0, 1, 1, 2])):
            m, u = r.choice(g)
            how = r.random()
            x = G.fresh()
            if how < .55:
                st.append('Bool@ _%s = %s;' % (x, G.use(u, G.route(u, m))))
            elif how < .75:
                st.append('(Unit@) { Bool@; } %s = (Unit@ _u) { %s; };' % ('_' + x, G.use(u, G.route(u, m))))
                if r.random() < .5:
                    st.append('Bool@ _%sr = _%s(Unit);' % (x, x))
            else:
                st.append('%s _%s = %s;' % (TYPES[u], x, G.route(u, m)))
        v = G.value(t, g)
        if r.random() < .25:
            m, u = r.choice(g)
            v = v if u != t else G.route(t, m)
        defs.append('%s %s = %s' % (TYPES[t], n, '{\n%s\n%s; }' % ('\n'.join(st), v) if st else v))
    lines.append(',\n'.join(defs) + ';')
    n, t = r.choice(g)
    if r.random() < .5:
        lines.append('Bool@ _z = %s;' % G.use(t, G.route(t, n)))
    lines.append(G.use(t, G.route(t, n)) + ';')
    if max(len(x) for x in '\n'.join(lines).split('\n')) > 990:
        return program(pid, seed + 500009)
    return dict(id=pid, fuel=300, main=['E%d' % pid, 'Main'], fs=[(['E%d' % pid, 'Main'], '\n'.join(lines) + '\n')])
