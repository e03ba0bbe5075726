"""Programs of many small expressions, one per line, each around one static rule and right up to at most a few changes."""
import random

LABELS = ['a', 'b', 'c', 'd', 'x']

ANY = ['acc', 'sel', 'sel', 'seld', 'call', 'redex', 'let', 'letk', 'bind', 'seq', 'id', 'idt', 'fst', 'lst', 'lst', 'lit', 'lit', 'unpk',
       'castout', 'polyuse', 'local', 'inst']


class Rules:
    def __init__(self, r, pid):
        self.r = r
        self.pid = pid
        self.n = 0
        self.decl = {}          # name -> ('*' | '+', ((label, type), ...)), or a type
        self.leaves = {}        # type -> variable
        self.scope = []

    def fresh(self, b):
        self.n += 1
        return b + str(self.n)

    # ------------------------------------------------------------- types of the program
    # ('n', name), ('f', arg, res), ('a', poly, type), ('k', package, type), ('v', type variable)
    def prelude(self):
        r = self.r
        self.decl['Unit'] = ('*', ())
        self.decl['Bool'] = ('+', (('true', ('n', 'Unit')), ('false', ('n', 'Unit'))))
        for i in range(r.randint(2, 4)):
            fs = r.sample(LABELS, r.choice([1, 2, 2, 3, 4]))
            self.decl['D%d' % i] = ('*' if i == 0 else r.choice('*+'), tuple((f, self.some(1)) for f in fs))
        # letters, and lists of letters
        fs = r.sample(LABELS, r.choice([2, 3, 4]))
        self.decl['L'] = ('+', tuple((f, ('n', r.choice(['Unit'] * 4 + ['Bool', 'D0']))) for f in fs))
        el = ('n', r.choice(['L', 'L', 'L', 'Bool', 'D1']))
        c = r.random()
        cons = ('*', (('head', el), ('tail', ('n', 'S'))))
        s = ('+', (('cons', ('n', 'C')), ('nil', ('n', 'Unit'))))
        if c < .25:
            k = r.randrange(8)
            if k == 0:
                s = ('+', tuple(reversed(s[1])))
            elif k == 1:
                cons = ('*', tuple(reversed(cons[1])))
            elif k == 2:
                s = ('+', s[1] + (('more', ('n', 'Unit')),))
            elif k == 3:
                cons = ('*', cons[1] + (('more', el),))
            elif k == 4:
                s = ('+', s[1][:1] + (('nil', ('n', 'Bool')),))
            elif k == 5:
                cons = ('*', (('head', el), ('tail', ('n', 'C'))))
            elif k == 6:
                s = ('*', s[1])
            else:
                cons = ('+', cons[1])
        self.decl['C'], self.decl['S'] = cons, s
        self.el = el

    def some(self, d):
        r = self.r
        c = r.random()
        if d <= 0 or c < .6:
            return ('n', r.choice(sorted(self.decl) + ['Unit', 'Bool']))
        if c < .8:
            return ('f', self.some(d - 1), self.some(d - 1))
        if c < .9:
            return ('a', 'List', self.some(d - 1))
        return ('k', r.choice(['K', 'K', 'L', 'M']), self.some(d - 1))

    def tt(self, t):
        """The tree of a type."""
        if t[0] in 'nv':
            return ['tn', t[1]]
        if t[0] == 'f':
            return ['tf', ['I', self.tt(t[1])], self.tt(t[2])]
        if t[0] == 'a':
            return ['tp', ['tn', t[1]], ['I', self.tt(t[2])]]
        return ['tk', ['tn', t[1] + 'k'], self.tt(t[2])]

    def data(self, t, s):
        if t[0] == 'n' and t[1] in self.decl and self.decl[t[1]][0] == s:
            return self.decl[t[1]][1]
        if t[0] == 'a' and s == '+':
            return (('one', t[2]), ('none', ('n', 'Unit')))
        return None

    # ------------------------------------------------------------- well typed expressions
    def var(self, t):
        own = [x for x, u in self.scope if u == t]
        if own and self.r.random() < .6:
            return ['v', self.r.choice(own)]
        if t not in self.leaves:
            self.leaves[t] = self.fresh('v')
        return ['v', self.leaves[t]]

    def anything(self):
        if self.leaves and self.r.random() < .4:
            return self.r.choice(sorted(self.leaves))
        return self.some(1)

    def owner(self, s):
        c = [n for n in self.decl if self.decl[n][0] == s and self.decl[n][1]]
        return ('n', self.r.choice(sorted(c)))

    def items(self, fs, d):
        return ['I'] + [['it', ['L', f], self.expr(u, d - 1)] for f, u in fs]

    def top(self, d):
        """An expression of some kind, each equally likely."""
        r = self.r
        c = r.choice(['new', 'obj', 'cp', 'cp', 'un', 'fun', 'part', 'pk', 'cast'] + ANY)
        t = self.anything()
        if c in ('new', 'obj', 'cp'):
            t = self.owner('*')
        elif c == 'un':
            t = self.owner('+')
        elif c in ('fun', 'part'):
            t = ('f', self.some(1), t)
        elif c in ('pk', 'cast'):
            t = ('k', r.choice('KM'), t)
        return self.expr(t, d, c)

    def expr(self, t, d, c=None):
        r = self.r
        if c is None and (d <= 0 or r.random() < .15):
            return self.var(t)
        sf, uf = self.data(t, '*'), self.data(t, '+')
        own = []
        if sf is not None:
            own += ['new', 'obj', 'cp'] if sf else ['new']
        if uf:
            own += ['un', 'un']
        if t[0] == 'f':
            own += ['fun', 'fun', 'part']
        if t[0] == 'k' and t[1] in 'KM':
            own += ['pk', 'cast']
        c = c or r.choice(own * 2 + ANY)
        if c == 'new':
            return ['new', self.tt(t), ['I'] + [self.expr(u, d - 1) for _, u in sf]]
        if c == 'obj':
            return ['obj', self.items(sf, d)]
        if c == 'cp':
            k = sorted(r.sample(range(len(sf)), r.randint(1, len(sf))))
            return ['cp', self.expr(t, d - 1), self.items([sf[i] for i in k], d)]
        if c == 'un':
            f, u = r.choice(uf)
            return ['un', self.tt(t), ['L', f], self.expr(u, d - 1)]
        if c == 'fun':
            return self.fun([t[1]], t[2], d)
        if c == 'part':
            o = self.anything()
            return ['call', self.expr(('f', o, t), d - 1), ['I', self.expr(o, d - 1)]]
        if c == 'pk':
            return ['call', ['tn', t[1] + 'k'], ['I', self.expr(t[2], d - 1)]]
        if c == 'cast':
            return ['cast', ['tn', t[1] + 'k'], self.tt(t), self.expr(t[2], d - 1)]
        if c == 'castout':
            return ['cast', ['tn', 'Kk'], self.tt(t), self.expr(('k', 'K', t), d - 1)]
        if c == 'unpk':
            return ['un%', self.expr(('k', r.choice('KM'), t), d - 1)]
        if c == 'acc':
            n = self.fresh('E')
            fs = [(f, self.some(0)) for f in r.sample(LABELS, r.choice([1, 2, 3]))]
            k = r.randrange(len(fs))
            fs[k] = (fs[k][0], t)
            self.decl[n] = (r.choice('*+'), tuple(fs))
            return ['acc', self.expr(('n', n), d - 1), ['L', fs[k][0]]]
        if c in ('sel', 'seld'):
            o = self.owner('+')
            fs = [(f, t) for f, _ in self.decl[o[1]][1]]
            e = self.expr(o, d - 1)
            if c == 'seld':
                keep = sorted(r.sample(range(len(fs)), r.randint(1, len(fs))))
                return ['sel', e, self.items([fs[i] for i in keep], d), self.expr(t, d - 1)]
            return ['sel', e, self.items(fs, d), ['nil']]
        if c == 'call':
            o = self.anything()
            if r.random() < .3:
                o2 = self.anything()
                return ['call', self.expr(('f', o, ('f', o2, t)), d - 1), ['I', self.expr(o, d - 1), self.expr(o2, d - 1)]]
            return ['call', self.expr(('f', o, t), d - 1), ['I', self.expr(o, d - 1)]]
        if c == 'redex':
            os = [self.anything() for _ in range(r.choice([1, 2]))]
            return ['call', ['par', self.fun(os, t, d)], ['I'] + [self.expr(o, d - 1) for o in os]]
        if c in ('let', 'letk'):
            bs, new = ['I'], []
            for _ in range(r.choice([1, 1, 2])):
                o, x = self.anything(), self.fresh('w')
                bs.append(['b', self.tt(o) if c == 'let' else ['kd', '%'], ['L', x], self.expr(o, d - 1)])
                new.append((x, o))
            return ['let', bs, self.within(new, t, d - 1)]
        if c == 'bind':
            os = [self.anything() for _ in range(r.choice([1, 1, 2]))]
            f = t
            for o in reversed(os):
                f = ('f', o, f)
            xs = [(self.fresh('w'), o) for o in os]
            return ['bind', ['I'] + [['arg', self.tt(o), ['L', x]] for x, o in xs], self.expr(('f', f, t), d - 1), self.within(xs, t, d - 1)]
        if c == 'seq':
            o = self.owner('+')
            fs = [(f, t) for f, _ in self.decl[o[1]][1]]
            keep = sorted(r.sample(range(len(fs)), r.randint(1, len(fs))))
            return ['seq', self.expr(o, d - 1), self.items([fs[i] for i in keep], d), self.expr(t, d - 1)]
        if c == 'id':
            return ['call', ['v', 'id'], ['I', self.expr(t, d - 1)]]
        if c == 'idt':
            return ['call', ['pa', ['v', 'id'], ['I', self.tt(t)]], ['I', self.expr(t, d - 1)]]
        if c == 'fst':
            o = self.anything()
            f = ['v', 'fst'] if r.random() < .5 else ['pa', ['v', 'fst'], ['I', self.tt(t), self.tt(o)][:r.choice([2, 3])]]
            return ['call', f, ['I', self.expr(t, d - 1), self.expr(o, d - 1)]]
        if c == 'lst':
            return ['lst', self.var(('f', ('n', 'S'), t)), ['I'] + [self.expr(self.el, d - 1) for _ in range(r.choice([0, 1, 2, 3]))]]
        if c == 'lit':
            w = ''.join(r.choice([f for f, _ in self.decl['L'][1]]) for _ in range(r.choice([1, 2, 3, 4])))
            return ['lit', self.var(('f', ('n', 'S'), t)), ['W', w]]
        if c == 'local':
            n = self.fresh('Y')
            x = self.fresh('w')
            return ['let', ['I', ['b', ['kd', '@'], ['L', n + '@'], self.tt(t)]],
                    ['let', ['I', ['b', ['tn', n], ['L', x], self.expr(t, d - 1)]], self.within([(x, t)], t, d - 1)]]
        if c == 'inst':
            g = self.fresh('g')
            return ['let', ['I', ['b', ['kd', '<@>%'], ['L', g], ['poly', ['I', ['ka', ['kd', '@'], ['L', g + 'A@']]],
                    ['fun', ['I', ['arg', ['tn', g + 'A'], ['L', '_y']]], self.expr(t, d - 1)]]]],
                    ['call', ['v', g], ['I', self.expr(self.anything(), d - 1)]]]
        # a polymorphic parameter made concrete at once
        A = self.fresh('A')
        x = self.fresh('w')
        return ['call', ['pa', ['par', ['poly', ['I', ['ka', ['kd', '@'], ['L', A + '@']]],
                ['fun', ['I', ['arg', ['tn', A], ['L', x]]], self.within([(x, ('v', A))], ('v', A), d - 1, A)]]],
            ['I', self.tt(t)]], ['I', self.expr(t, d - 1)]]

    def within(self, new, t, d, tv=None):
        old = self.scope
        self.scope = old + new
        e = self.expr(t, d) if tv is None else ['v', new[0][0]]
        self.scope = old
        return e

    def fun(self, args, t, d):
        xs = [(self.fresh('w'), a) for a in args]
        return ['fun', ['I'] + [['arg', self.tt(a), ['L', x]] for x, a in xs], self.within(xs, t, d - 1)]

    # ------------------------------------------------------------- changes
    def twist(self, e):
        r = self.r
        spots = list(walk(e, ()))
        if r.random() < .6:
            spots = [x for x in spots if len(x[0]) <= 2]
        for _ in range(20):
            p, t = r.choice(spots)
            k = t[0]
            u = None
            if k == 'I':
                its = t[1:]
                up = get(e, p[:-1])
                c = r.randrange(6)
                if c == 0 and its:
                    del its[r.randrange(len(its))]
                elif c == 1 and its:
                    i = r.randrange(len(its))
                    its.insert(r.choice([i, len(its)]), its[i])
                elif c == 2 and len(its) > 1:
                    i, j = r.sample(range(len(its)), 2)
                    its[i], its[j] = its[j], its[i]
                elif c == 3 and len(its) > 1:
                    i, j = r.sample(range(len(its)), 2)
                    if its[i][0] == 'it' == its[j][0]:
                        its[i] = ['it', its[i][1], its[j][2]] if r.random() < .5 else ['it', its[j][1], its[i][2]]
                    else:
                        its[i] = its[j]
                elif c == 4 and its and its[0][0] == 'it':
                    its.insert(r.randrange(len(its) + 1), ['it', ['L', self.label()], self.var(self.anything())])
                elif c == 5 and its and its[0][0] == 'it':
                    i = r.randrange(len(its))
                    its.insert(r.randrange(len(its) + 1), ['it', its[i][1], self.var(self.anything())])
                elif up[0] in ('new', 'call', 'lst'):
                    its.insert(r.randrange(len(its) + 1), self.var(self.anything()))
                elif up[0] in ('pa', 'tp', 'tf'):
                    its.insert(r.randrange(len(its) + 1), self.tt(self.anything()))
                if not its and up[0] not in ('new', 'call', 'lst', 'obj', 'td'):
                    continue
                u = ['I'] + its
            elif k == 'L':
                u = ['L', self.label() if t[1][-1] != '@' or r.random() < .3 else t[1][:-1]]
            elif k == 'W':
                w = list(t[1])
                i = r.randrange(len(w))
                w[i] = r.choice(LABELS + ['z', '_'])
                u = ['W', ''.join(w)]
            elif k == 'kd':
                u = ['kd', r.choice(['%', '@', '<@>%', '<@>@', '<<@>@>%'])]
            elif k == 'nil':
                u = self.var(self.anything())
            elif k[0] == 't':
                c = r.randrange(8)
                T = self.tt(self.anything())
                if c < 4:
                    u = T
                elif c == 4:
                    u = ['tn', r.choice(['List', 'Kk', 'Lk', 'Pair', 'Nope'])]
                elif c == 5:
                    u = ['td', r.choice('*+'), ['I', ['arg', t, ['L', self.label()]], ['arg', T, ['L', self.label()]]]]
                elif c == 6:
                    u = ['tof', self.var(self.anything())]
                else:
                    u = self.var(self.anything())
            elif k in ('it', 'arg', 'b', 'ka'):
                continue
            else:
                c = r.randrange(12)
                o = self.var(self.anything())
                if c < 5:
                    u = o
                elif c == 5:
                    u = ['acc', t, ['L', self.label()]]
                elif c == 6:
                    u = ['call', t, ['I', o]]
                elif c == 7:
                    u = ['v', r.choice(['id', 'fst', 'nope'])]
                elif c == 8:
                    u = ['un%', t]
                elif c == 9:
                    u = self.tt(self.anything())
                elif c == 10 and k in ('sel', 'cp') and len(t) > 2:
                    u = ['sel' if k == 'cp' else 'cp', t[1], t[2], ['nil']][:4 if k == 'cp' else 3]
                elif c == 10 and k == 'sel':
                    u = ['sel', t[1], t[2], ['nil']]
                elif t[1] in ('id', 'fst') or r.random() < .2:
                    u = ['pa', t, ['I', self.tt(self.anything())]]
            if u is not None and u != t:
                u = put(e, p, u)
                if all(self.applies(x) for _, x in walk(u, ())):
                    return u
        return e

    def applies(self, e):
        """Applied to something, unless it makes a value of a struct type (the rules leave f() open otherwise)."""
        return (e[0] not in ('new', 'call') or len(e[2]) > 1
                or e[1][0] == 'tn' and self.decl.get(e[1][1], ' ')[0] == '*')

    def label(self):
        return self.r.choice(LABELS + ['true', 'head', 'one', 'nil'])


def walk(e, p):
    yield p, e
    for i, k in enumerate(e):
        if isinstance(k, list):
            yield from walk(k, p + (i,))


def put(e, p, u):
    if not p:
        return u
    e = list(e)
    e[p[0]] = put(e[p[0]], p[1:], u)
    return e


def get(e, p):
    for i in p:
        e = e[i]
    return e


def text(e):
    k = e[0]
    if k == 'I':
        return ', '.join(text(x) for x in e[1:])
    if k in ('v', 'L', 'kd', 'W'):
        return e[1]
    if k == 'tn':
        return e[1] + '@'
    if k == 'tf':
        return '(%s) { %s; }' % (text(e[1]), text(e[2]))
    if k == 'tp':
        return '%s<%s>' % (text(e[1]), text(e[2]))
    if k == 'tk':
        return '%s<%s>' % (text(e[1]), text(e[2]))
    if k == 'td':
        return '%s(%s)' % (e[1], text(e[2]))
    if k == 'tof':
        return '@<%s>' % text(e[1])
    if k in ('arg', 'ka'):
        return '%s %s' % (text(e[1]), text(e[2]))
    if k == 'b':
        return '%s %s = %s' % (text(e[1]), text(e[2]), text(e[3]))
    if k == 'it':
        return '%s: %s' % (text(e[1]), text(e[2]))
    if k == 'acc':
        return '%s.%s' % (text(e[1]), text(e[2]))
    if k in ('new', 'call'):
        return '%s(%s)' % (text(e[1]), text(e[2]))
    if k == 'obj':
        return '@(%s)' % text(e[1])
    if k == 'un':
        return '%s(%s: %s)' % (text(e[1]), text(e[2]), text(e[3]))
    if k == 'sel':
        return '%s.?(%s%s)' % (text(e[1]), text(e[2]), '' if e[3][0] == 'nil' else (', : ' if len(e[2]) > 1 else ': ') + text(e[3]))
    if k == 'cp':
        return '%s.@(%s)' % (text(e[1]), text(e[2]))
    if k == 'fun':
        return '(%s) { %s; }' % (text(e[1]), text(e[2]))
    if k == 'let':
        return '{ %s; %s; }' % (text(e[1]), text(e[2]))
    if k == 'bind':
        return '{ %s <- %s; %s; }' % (text(e[1]), text(e[2]), text(e[3]))
    if k == 'seq':
        return '{ %s.?(%s); %s; }' % (text(e[1]), text(e[2]), text(e[3]))
    if k == 'lst':
        return '%s[%s]' % (text(e[1]), text(e[2]))
    if k == 'lit':
        return '%s|%s' % (text(e[1]), text(e[2]))
    if k == 'pa':
        return '%s<%s>' % (text(e[1]), text(e[2]))
    if k == 'poly':
        return '<%s> { %s; }' % (text(e[1]), text(e[2]))
    if k == 'un%':
        return '%s.%%' % text(e[1])
    if k == 'cast':
        return '%s.<%s>(%s)' % (text(e[1]), text(e[2]), text(e[3]))
    if k == 'par':
        return '{ %s; }' % text(e[1])
    if k == 'nil':
        return ''
    raise ValueError(e)


def program(pid, seed, n=14, depth=2):
    r = random.Random(seed)
    G = Rules(r, pid)
    G.prelude()
    top = 'T%d' % pid
    lines = []
    for i in range(n):
        G.scope = []
        e = G.top(r.choice([1, depth, depth]))
        k = .65
        while r.random() < k:
            e = G.twist(e)
            k = .35
        lines.append('f%d: %s%s' % (i, text(e), ',' if i < n - 1 else ''))
    head = ['@ Kk@ = %%(/%s/Main%%); @ Lk@ = %%(/%s/Q%%); @ Mk@ = %s;' % (top, top, r.choice(['%%(/%s%%)' % top, '%()'])),
            '<@>@ List@ = <@ T@> { +(T@ one, Unit@ none); };',
            '<@, @>@ Pair@ = <@ T@, @ U@> { *(T@ one, U@ two); };']
    ds = ['@ %s@ = %s(%s)' % (x, d[0], ', '.join('%s %s' % (text(G.tt(t)), f) for f, t in d[1])) for x, d in sorted(G.decl.items())]
    args = ',\n'.join('%s %s' % (text(G.tt(t)), x) for t, x in sorted(G.leaves.items(), key=lambda y: y[1])) or 'Unit@ _u'
    # names of types are all bound at once, so that they can be in any order
    src = ['@ Unit@ = *();'] + head + [',\n'.join(d for d in ds if not d.startswith('@ Unit@')) + ';',
           '<@>% id = <@ A@>(A@ x) { x; }; <@, @>% fst = <@ A@, @ B@>(A@ x, B@ _y) { x; };',
           '(%s) { @(' % args]
    src = '\n'.join(src).split('\n')
    first = len(src) + 1
    if max(len(x) for x in src + lines) > 990:
        return program(pid, seed + 500009, n, depth)    # the specification writes locations with columns below 1000
    return dict(id=pid, fuel=0, main=[top, 'Main'], fs=[([top, 'Main'], '\n'.join(src + lines + ['); };']) + '\n')], first=first, last=first + n - 1)
