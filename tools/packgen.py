"""Programs about packages and abstract types: many small conversions, one per line, in a module in or out of the packages."""
import random
import fblegen

# types: ('n', name) ('f', arg, res) ('k', package name, type) ('s', '*'|'+', ((label, type), ...)) ('b', name, type)


def path(p):
    return '%%(%s%%)' % ''.join('/' + fblegen.quote(w) for w in p) if p else '%()'


class Packs:
    def __init__(self, r, pid):
        self.r, self.pid = r, pid
        self.n = 0

    def fresh(self, b):
        self.n += 1
        return b + str(self.n)

    def text(self, t):
        if t[0] == 'n':
            return t[1] + '@'
        if t[0] == 'f':
            return '(%s) { %s; }' % (self.text(t[1]), self.text(t[2]))
        if t[0] == 'k':
            return '%s<%s>' % (t[1], self.text(t[2]))
        if t[0] == 'b':
            return '%s@<%s>' % (t[1], self.text(t[2]))
        return '%s(%s)' % (t[1], ', '.join('%s %s' % (self.text(u), f) for f, u in t[2]))

    def type(self, d, names):
        r = self.r
        c = r.random()
        if d <= 0 or c < .4:
            return ('n', r.choice(names))
        if c < .55:
            return ('f', self.type(d - 1, names), self.type(d - 1, names))
        if c < .75:
            return ('k', self.pk(), self.type(d - 1, names))
        if c < .85:
            return ('b', 'Box', self.type(d - 1, names))
        k = r.randint(1, 2)
        return ('s', r.choice('*+'), tuple((f, self.type(d - 1, names)) for f in r.sample('ab', k)))

    def pk(self):
        return self.r.choice(self.pks)

    def turn(self, t, pk, k):
        """t with abstract types of pk put around parts of it or taken off, with probability k, and names by their twins."""
        r = self.r
        if r.random() < k:
            if t[0] == 'k' and t[1] == pk and r.random() < .7:
                return self.turn(t[2], pk, k)
            if r.random() < .6:
                return ('k', pk, self.turn(t, pk, k / 2))
        if t[0] == 'n':
            tw = [x for x, p in self.twins.get(t[1], []) if p == pk]
            return ('n', r.choice(tw)) if tw and r.random() < k else t
        if t[0] == 'f':
            return ('f', self.turn(t[1], pk, k), self.turn(t[2], pk, k))
        if t[0] in 'kb':
            return (t[0], t[1], self.turn(t[2], pk, k))
        return (t[0], t[1], tuple((f, self.turn(u, pk, k)) for f, u in t[2]))

    def spoil(self, t):
        """t with one thing changed."""
        r = self.r
        if r.random() < .3 or t[0] == 'n':
            c = r.randrange(4)
            if c == 0 and t[0] == 'k':
                return t[2]
            if c == 1:
                return ('k', self.pk(), t)
            if c == 2 and t[0] == 'k':
                return ('k', self.pk(), t[2])
            return ('n', r.choice(self.names))
        if t[0] == 'f':
            return ('f', self.spoil(t[1]), t[2]) if r.random() < .5 else ('f', t[1], self.spoil(t[2]))
        if t[0] in 'kb':
            return (t[0], t[1], self.spoil(t[2]))
        i = r.randrange(len(t[2]))
        return ('s', t[1], t[2][:i] + ((t[2][i][0], self.spoil(t[2][i][1])),) + t[2][i + 1:])

    def group(self, names, base):
        """A group of declarations of data types."""
        r = self.r
        out = {}
        for x in names:
            d = r.choice('*+') if x != names[0] else '+'
            fs = [('nil', ('n', 'Unit'))] if d == '+' else []
            out[x] = (d, tuple(fs + [(f, self.type(1, names + base)) for f in r.sample('abc', r.randint(1, 2))]))
        return out

    def decls(self, g):
        return ',\n'.join('@ %s@ = %s(%s)' % (x, d, ', '.join('%s %s' % (self.text(t), f) for f, t in fs)) for x, (d, fs) in g.items()) + ';\n'


def paths(top):
    A = [[top], [top, 'Foo'], [top, 'Foo', 'Bar'], [top, 'Foo', 'Bar', 'Baz'], [top, 'Fo'], [top, 'Foo', 'Ba'], [top, 'Foo Bar'], [top, 'Bar'],
         [top, 'Foo', 'Foo'], [top, 'Foo', 'Bar', 'Bar'], [top, "Foo'"]]
    return A


def program(pid, seed, n=12):
    r = random.Random(seed)
    G = Packs(r, pid)
    top = 'X%d' % pid
    pool = paths(top)
    # definers: each has its package type and sealed things of it
    user = [w for w in r.choice(pool)] + r.choice([['M'], ['Foo'], ['Bar'], [], ['M', 'N']])
    fs, defs = [], []
    for j in range(r.randint(1, 3)):
        p = list(r.choice(pool)) + ['D%d' % j]
        k = r.randint(0, len(p))
        pk = p[:k]
        text = ['@ Unit@ = *(); Unit@ Unit = Unit@();', '@ Bool@ = +(Unit@ true, Unit@ false); Bool@ True = Bool@(true: Unit);',
                '@ P@ = %s;' % path(pk)]
        if r.random() < .7:
            text += ['@ A@ = P@<Bool@>; A@ a = P@(True); (A@) { Bool@; } un = (A@ x) { x.%; };']
        else:
            text += ['@ A@ = P@<Bool@>; A@ a = P@.<A@>(True); (A@) { Bool@; } un = P@.<(A@) { Bool@; }>((Bool@ x) { x; });']
        out = '@(Unit@, Bool@, P@, A@, a, un, True)'
        whole = r.random() < .3
        fs.append((p, '\n'.join(text + [('P@(%s);' if whole else '%s;') % out]) + '\n'))
        defs.append((p, pk, whole))
    # packages as the user's module names them
    G.pks = []
    text = ['@ Unit@ = *();', '@ Bool@ = +(Unit@ true, Unit@ false);', '<@>@ Box@ = <@ T@> { *(T@ in); };']
    for i in range(r.randint(2, 4)):
        q = user[:r.randint(0, len(user))] if r.random() < .65 else r.choice(pool + [user + ['M'], [top[:-1]], user[:-1] + [user[-1] + 'x'], [w for w in defs[0][1]]])
        x = self_name = 'K%d@' % i
        text.append('@ %s = %s;' % (x, path(q)))
        G.pks.append(x if r.random() < .9 else path(q))
    mods = []
    for p, pk, whole in defs:
        m = ''.join('/' + fblegen.quote(w) for w in p) + '%'
        if whole and user[:len(pk)] == pk:
            m += '.%'
        elif whole:
            continue
        mods.append(m)
    # declared types and twins of them
    G.twins = {}
    base = ['Unit', 'Bool']
    names = ['S%d' % i for i in range(r.randint(1, 3))]
    g0 = G.group(names, base)
    G.names = base + names
    text.append(G.decls(g0))
    for t in range(r.randint(1, 2)):
        pk = G.pk()
        tw = {x: '%s%s' % (x, 'tu'[t]) for x in names}
        for x in names:
            G.twins.setdefault(x, []).append((tw[x], pk))
        g1 = {tw[x]: (d, tuple((f, G.turn(u, pk, .4) if u != ('n', 'Unit') else u) for f, u in fs)) for x, (d, fs) in g0.items()}
        if r.random() < .2:
            x = r.choice(sorted(g1))
            d, fs_ = g1[x]
            g1[x] = (d, fs_[:-1] + ((fs_[-1][0], G.spoil(fs_[-1][1])),))
        G.names = G.names + sorted(tw.values())
        text.append(G.decls(g1))
        for x in names:
            G.twins.setdefault(tw[x], []).append((x, pk))
    leaves = {}

    def var(t):
        if t not in leaves:
            leaves[t] = 'v%d' % len(leaves)
        return leaves[t]

    lines = []
    for i in range(n):
        c = r.random()
        t = G.type(r.choice([1, 2, 2, 3]), G.names)
        pk = G.pk()
        if c < .45:
            u = G.turn(t, pk, r.choice([.2, .5]))
            if r.random() < .3:
                u = G.spoil(u)
            if r.random() < .15:
                pk = G.pk()
            if r.random() < .2:
                t, u = u, t
            e = '%s.<%s>(%s)' % (pk, G.text(u), var(t))
            if r.random() < .2:
                e = '{ %s z = %s; z; }' % (G.text(u if r.random() < .8 else t), e)
        elif c < .55:
            e = '%s(%s)' % (pk, var(t))
            if r.random() < .6:
                u = ('k', pk, t)
                e = '{ %s z = %s; z; }' % (G.text(u if r.random() < .6 else G.spoil(u)), e)
        elif c < .7:
            k = ('k', pk, t)
            e = '%s.%%' % var(k if r.random() < .85 else t)
            if r.random() < .5:
                e = '{ %s z = %s; z; }' % (G.text(t if r.random() < .7 else G.spoil(t)), e)
            elif r.random() < .3:
                e = '%s(%s)' % (pk, e)
            elif t[0] == 'f' and r.random() < .6:
                e = '%s(%s)' % (e, var(t[1]))
        elif c < .8:
            u = G.turn(t, pk, .3) if r.random() < .5 else t
            e = '{ %s z = %s; z; }' % (G.text(u), var(t))
        elif c < .9 and mods:
            m = r.choice(mods)
            x = r.choice(['%s.a', '%s.a.%%', '%s.un(%s.a)', '%s.un(%s.True)', '%s.P@(%s)', '%s.P@.<%s.A@>(%s.True)', '%s.P@.<%s.Bool@>(%s.a)',
                          '%s.P@.<(%s.Bool@) { %s.Bool@; }>(%s.un)', '{ %s.A@ z = %s.a; z; }', '{ %s.P@<%s.Bool@> z = %s.a; z; }', '%s.un(%s.P@(%s.True))',
                          '%s.P@(%s.a)', '{ %s.Bool@ z = %s.a.%%; z; }', 'K0@(%s.a)', 'K0@.<K0@<%s.A@>>(%s.a)'])
            if x.startswith('%s.P@(%s)'):
                e = '%s.P@(%s)' % (m, var(t))
            else:
                e = x.replace('%s', m).replace('%%', '%')
        else:
            # into a module that may be sealed
            p, pk_, whole = r.choice(defs)
            m = ''.join('/' + fblegen.quote(w) for w in p) + '%'
            e = r.choice(['%s.%%.a', '%s.%%', '%s.a', '%s.%%.un(%s.%%.a)', '%s.%%.P@.<@<%s>>(%s.%%)']).replace('%s', m).replace('%%', '%')
        lines.append('f%d: %s%s' % (i, e, ',' if i < n - 1 else ''))
    args = ',\n'.join('%s %s' % (G.text(t), x) for t, x in leaves.items()) or 'Unit@ _u'
    src = '\n'.join(text + ['(%s) { @(' % args]).split('\n')
    first = len(src) + 1
    if max(len(x) for x in src + lines) > 990 or any(p == user for p, _ in fs):
        return program(pid, seed + 500009, n)
    fs.append((user, '\n'.join(src + lines + ['); };']) + '\n'))
    return dict(id=pid, fuel=0, main=user, fs=fs, first=first, last=first + n - 1)


# ------------------------------------------------------------------ values
class Values(Packs):
    def value(self, t, d):
        """An expression that needs no type around it, of type t."""
        r = self.r
        if t[0] == 'k':
            return '%s(%s)' % (t[1], self.value(t[2], d - 1))
        if t[0] == 'f':
            return '(%s _x) { %s; }' % (self.text(t[1]), self.value(t[2], d - 1))
        if t[0] == 'b':
            return 'Box@<%s>(%s)' % (self.text(t[2]), self.value(t[2], d - 1))
        if t == ('n', 'Unit'):
            return 'Unit'
        if t == ('n', 'Bool'):
            return r.choice(['True', 'False'])
        if t[0] == 'n':
            s, fs = self.decl[t[1]]
        else:
            s, fs = t[1], t[2]
        if s == '*':
            return '%s(%s)' % (self.text(t), ', '.join(self.value(u, d - 1) for _, u in fs))
        f, u = r.choice(fs) if d > 0 else fs[0]
        return '%s(%s: %s)' % (self.text(t), f, self.value(u, d - 1))


def values(pid, seed, n=8):
    """A program whose value goes through conversions."""
    r = random.Random(seed)
    G = Values(r, pid)
    top = 'X%d' % pid
    G.pks = ['K%d@' % i for i in range(3)]
    user = [top, 'Foo', 'M']
    text = ['@ Unit@ = *(); Unit@ Unit = Unit@();', '@ Bool@ = +(Unit@ true, Unit@ false); Bool@ True = Bool@(true: Unit), False = Bool@(false: Unit);'.replace(', False', ', Bool@ False'),
            '<@>@ Box@ = <@ T@> { *(T@ in); };']
    text += ['@ %s = %s;' % (x, path(q)) for x, q in zip(G.pks, [user[:2], user, []])]
    base = ['Unit', 'Bool']
    # a list like type, so that values are finite, and structs that do not contain themselves
    g0 = {'S0': ('+', (('nil', ('n', 'Unit')), ('a', ('n', 'S1')))), 'S1': ('*', (('a', G.type(1, base)), ('b', ('n', 'S0'))))}
    G.twins, G.decl, G.names = {}, dict(g0), base + ['S0', 'S1']
    text.append(G.decls(g0))
    for k in range(2):
        pk = G.pk()
        tw = {x: x + 'tu'[k] for x in g0}
        for x in g0:
            G.twins.setdefault(x, []).append((tw[x], pk))
        g1 = {tw[x]: (d, tuple((f, G.turn(u, pk, .4) if u != ('n', 'Unit') else u) for f, u in fs)) for x, (d, fs) in g0.items()}
        for x in g0:
            G.twins.setdefault(tw[x], []).append((x, pk))
        G.decl.update(g1)
        text.append(G.decls(g1))
    names, lines = [], []
    for i in range(n):
        t = G.type(2, G.names)
        e = G.value(t, 3)
        for _ in range(r.randint(1, 3)):
            pk = G.pk()
            u = G.turn(t, pk, .4)
            if t[0] == 'k' and r.random() < .4:
                e, t = '%s.%%' % e, t[2]
            elif t[0] == 'f' and r.random() < .5:
                a = G.value(t[1], 2)
                e, t = '%s(%s)' % (e, a), t[2]
            elif r.random() < .2:
                e, t = '%s(%s)' % (pk, e), ('k', pk, t)
            else:
                e, t = '%s.<%s>(%s)' % (pk, G.text(u), e), u
            if r.random() < .3:
                x = G.fresh('x')
                lines.append('%s %s = %s;' % (r.choice([G.text(t), '%']), x, e))
                e = x
        lines.append('%% f%d = %s;' % (i, e))
        names.append('f%d' % i)
    src = text + lines + ['@(%s);' % ', '.join(names)]
    src = '\n'.join(src).split('\n')
    if max(map(len, src)) > 990:
        return values(pid, seed + 500009, n)
    return dict(id=pid, fuel=600, main=user, fs=[(user, '\n'.join(src) + '\n')])


if __name__ == '__main__':
    import sys
    for p, t in program(1, int(sys.argv[1]))['fs']:
        print('-----', p)
        print(t)
    print(values(1, int(sys.argv[1]))['fs'][0][1])
