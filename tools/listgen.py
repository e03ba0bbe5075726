"""Programs that write lists of values and of letters everywhere an expression may stand, elements with effects on what
happens next (calls, aborts, other lists) included."""
import random

PRE = '''@ U@ = *(); U@ U = U@();
@ B@ = +(U@ t, U@ f); B@ T = B@(t: U); B@ F = B@(f: U);
@ C@ = +(U@ a, U@ b, U@ '-', U@ d0);
@ S@ = *(B@ x, C@ y);
<@>@ L@ = <@ A@> { @ M@ = +(*(A@ head, M@ tail) cons, U@ nil); M@; };
<@>% List = <@ A@>(L@<A@> l) { l; };
(B@) { B@; } Not = (B@ x) { x.?(t: F, f: T); };
(C@) { B@; } IsA = (C@ c) { c.?(a: T, : F); };
(L@<B@>) { B@; } All = (L@<B@> l) { l.?(cons: { B@ h = l.cons.head; h.?(t: All(l.cons.tail), f: F); }, nil: T); };
(L@<C@>) { L@<B@>; } As = (L@<C@> l) { l.?(cons: L@<B@>(cons: @(head: IsA(l.cons.head), tail: As(l.cons.tail))), nil: L@<B@>(nil: U)); };
<@>% Rev = <@ A@>(L@<A@> l) {
  (L@<A@>, L@<A@>) { L@<A@>; } go = (L@<A@> x, L@<A@> y) { x.?(cons: go(x.cons.tail, L@<A@>(cons: @(head: x.cons.head, tail: y))), nil: y); };
  go(l, L@<A@>(nil: U));
};
(L@<C@>) { L@<C@>; } Str = (L@<C@> l) { l; };
(L@<L@<B@>>) { L@<B@>; } Join = (L@<L@<B@>> l) {
  l.?(cons: {
    L@<B@> h = l.cons.head;
    h.?(cons: L@<B@>(cons: @(head: h.cons.head, tail: Join(L@<L@<B@>>(cons: @(head: h.cons.tail, tail: l.cons.tail))))),
      nil: Join(l.cons.tail));
  }, nil: L@<B@>(nil: U));
};
(L@<(B@) { B@; }>, B@) { B@; } Pipe = (L@<(B@) { B@; }> l, B@ x) { l.?(cons: Pipe(l.cons.tail, l.cons.head(x)), nil: x); };
'''


class G:
    def __init__(self, r):
        self.r, self.n = r, 0

    def fresh(self):
        self.n += 1
        return 'v%d' % self.n

    def count(self):
        return self.r.choice([0, 1, 1, 2, 2, 3, 4, 5, 7, 8, 9, 16, 17])

    def letters(self):
        return ''.join(self.r.choice(['a', 'b', '-']) for _ in range(self.count()))

    def b(self, env, d):
        r = self.r
        mine = [n for n, t in env if t == 'B']
        if mine and r.random() < .35:
            return r.choice(mine)
        if d <= 0:
            return r.choice('TF')
        k = r.random()
        if k < .2:
            return 'All(%s)' % self.lb(env, d - 1)
        if k < .3:
            return 'Not(%s)' % self.b(env, d - 1)
        if k < .42:
            return 'All[%s]' % ', '.join(self.b(env, d - 2) for _ in range(self.count()))
        if k < .5:
            return 'Pipe(%s, %s)' % (self.lf(env, d - 1), self.b(env, d - 1))
        if k < .6:
            return 'S@(%s, %s).x' % (self.b(env, d - 1), self.c(env, d - 1))
        if k < .68:
            return '%s.cons.head' % self.lb(env, d - 1)       # may abort
        if k < .78:
            return 'IsA(%s)' % self.c(env, d - 1)
        if k < .9:
            x = self.fresh()
            return '{ B@ %s = %s; %s; }' % (x, self.b(env, d - 1), self.b(env + [(x, 'B')], d - 1))
        x = self.fresh()
        return '{ B@ %s = %s; %s.?(t: %s, f: %s); }' % (x, self.b(env, d - 1), x, self.b(env, d - 1), self.b(env, d - 1))

    def c(self, env, d):
        r = self.r
        mine = [n for n, t in env if t == 'C']
        if mine and r.random() < .4:
            return r.choice(mine)
        if d > 0 and r.random() < .3:
            return '%s.cons.head' % self.lc(env, d - 1)
        return "C@(%s: U)" % r.choice(['a', 'b', "'-'", 'd0'])

    def lb(self, env, d):
        r = self.r
        mine = [n for n, t in env if t == 'LB']
        if mine and r.random() < .3:
            return r.choice(mine)
        k = r.random()
        if k < .5 or d <= 0:
            return 'List<B@>[%s]' % ', '.join(self.b(env, d - 1) for _ in range(self.count()))
        if k < .6:
            return 'List[%s]' % ', '.join(self.b(env, d - 1) for _ in range(max(1, self.count())))
        if k < .7:
            return 'As(%s)' % self.lc(env, d - 1)
        if k < .8:
            return 'Join[%s]' % ', '.join(self.lb(env, d - 2) for _ in range(r.choice([0, 1, 2, 3])))
        if k < .9:
            x, y = self.fresh(), self.fresh()
            return '{ (B@, L@<B@>) { L@<B@>; } %s = (B@ v, L@<B@> w) { %s; }; %s(%s, %s); }' % (
                x, self.lb(env + [('v', 'B'), ('w', 'LB')], d - 1), x, self.b(env, d - 1), self.lb(env, d - 2))
        return 'Rev<B@>[%s]' % ', '.join(self.b(env, d - 1) for _ in range(self.count()))

    def lc(self, env, d):
        k = self.r.random()
        if k < .4:
            return "Str|'%s'" % self.letters()
        if k < .6:
            return "List<C@>|'%s'" % self.letters()
        if k < .8:
            return 'Str[%s]' % ', '.join(self.c(env, d - 1) for _ in range(self.count()))
        return "Rev<C@>|'%s'" % self.letters()

    def lf(self, env, d):
        fs = []
        for _ in range(self.r.choice([0, 1, 2, 3])):
            x = self.fresh()
            fs.append(self.r.choice(['Not', '(B@ %s) { %s; }' % (x, self.b(env + [(x, 'B')], d - 1))]))
        return 'List<(B@) { B@; }>[%s]' % ', '.join(fs)


def program(pid, seed):
    r = random.Random(seed)
    g = G(r)
    text, env = PRE, []
    for _ in range(r.randint(1, 4)):
        x, t = g.fresh(), r.choice(['B', 'LB', 'B'])
        text += '%s %s = %s;\n' % ({'B': 'B@', 'LB': 'L@<B@>'}[t], x, {'B': g.b, 'LB': g.lb}[t](env, r.randint(1, 4)))
        env.append((x, t))
    text += '%s;\n' % r.choice([g.lb, g.b, g.lb])(env, r.randint(2, 5))
    return dict(id=pid, fuel=3000, main=['Ls%d' % pid], fs=[(['Ls%d' % pid], text)])
