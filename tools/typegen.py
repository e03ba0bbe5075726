"""Groups of type definitions, rewritten versions of them, and pairs of types to compare."""
import random

FIELDS = ['a', 'b', 'c']


class Types:
    def __init__(self, r):
        self.r = r
        self.n = 0
        self.polys = []       # (name, params, kinds, body) in order of definition

    def fresh(self, p):
        self.n += 1
        return p + str(self.n)

    # ---------------------------------------------------------------- random types
    def ty(self, refs, params, d):
        r = self.r
        c = r.random()
        leaves = [('r', x) for x in refs] * 3 + [('p', x) for x in params] * 3 + [('r', 'Unit')]
        if d <= 0 or c < 0.3:
            return r.choice(leaves)
        if c < 0.65:
            fs = r.sample(FIELDS, r.choice([0, 1, 1, 2, 2, 3]))
            return ('d', r.choice('*+') if fs else '*', tuple((f, self.ty(refs, params, d - 1)) for f in fs))
        if c < 0.8:
            return ('f', self.ty(refs, params, d - 1), self.ty(refs, params, d - 1))
        if c < 0.9 and self.polys:
            p = r.choice(self.polys)
            return self.apply(p, refs, params, d - 1)
        if c < 0.94:
            return ('k', r.choice(['K', 'L']), self.ty(refs, params, d - 1))
        if c < 0.97:
            x = self.fresh('X')
            return ('m', x, self.data([x] + list(refs), params, d - 1))
        return r.choice(leaves)

    def data(self, refs, params, d):
        fs = self.r.sample(FIELDS, self.r.choice([1, 2, 2, 3]))
        return ('d', self.r.choice('*+'), tuple((f, self.ty(refs, params, d)) for f in fs))

    def apply(self, p, refs, params, d):
        """An application of the poly p; a higher kinded parameter gets an earlier poly."""
        args = []
        for k in p[2]:
            if k:
                args.append(('r', self.r.choice([q for q in self.polys if q[2] == (0,)])[0]))
            else:
                args.append(self.ty(refs, params, d))
        return ('a', ('r', p[0]), tuple(args))

    def poly(self):
        r = self.r
        ks = tuple(1 if r.random() < .15 and any(q[2] == (0,) for q in self.polys) else 0 for _ in range(r.choice([1, 1, 2])))
        ps = tuple(self.fresh('A') for _ in ks)
        plain = [x for x, k in zip(ps, ks) if not k]
        body = self.ty([], plain, 2)
        for x, k in zip(ps, ks):
            if k:
                body = ('d', '*', (('a', ('a', ('p', x), (self.ty([], plain, 1),))), ('b', body)))
        if r.random() < .4:
            x = self.fresh('X')
            body = ('m', x, ('d', '+', (('a', ('r', x)), ('b', body), ('c', self.ty([x], plain, 1)))))
        self.polys.append((self.fresh('P'), ps, ks, body))

    def group(self, k):
        names = [self.fresh('D') for _ in range(k)]
        return {n: self.data(names, [], 2) if self.r.random() < .85 else ('f', self.ty(names, [], 1), self.ty(names, [], 1))
                for n in names}

    # ---------------------------------------------------------------- rewriting
    def rename(self, g):
        m = {n: self.fresh('E') for n in g}
        return {m[n]: rep(b, {('r', k): ('r', v) for k, v in m.items()}) for n, b in g.items()}, m

    def rewrite(self, g):
        """A change of the group that keeps what its types denote."""
        r = self.r
        g = dict(g)
        n = r.choice(sorted(g))
        spots = list(subs(g[n], ()))
        c = r.randrange(8)
        if c == 0:      # unroll a reference
            refs = [p for p, t in spots if t[0] == 'r' and t[1] in g and p and guarded(g[n], p)]
            if refs:
                p = r.choice(refs)
                g[n] = put(g[n], p, g[at(g[n], p)[1]])
        elif c == 1:    # expand a poly application
            apps = [(p, t) for p, t in spots if t[0] == 'a' and t[1][0] == 'r']
            if apps:
                p, t = r.choice(apps)
                q = [q for q in self.polys if q[0] == t[1][1]][0]
                if not any(q[2]):
                    g[n] = put(g[n], p, alpha(self, rep(q[3], {('p', a): b for a, b in zip(q[1], t[2])})))
        elif c == 2:    # name a part
            ok = [p for p, t in spots if p and not bound(g[n], p) and t[0] != 'r' and not parampoly(g[n], p)]
            if ok:
                p = r.choice(ok)
                x = self.fresh('N')
                t = at(g[n], p)
                g[n] = put(g[n], p, ('r', x))
                g[x] = t
        elif c == 3:    # the definition as a poly of what it refers to
            body, args, ps = g[n], [], []
            for p, t in spots:
                if t[0] == 'r' and t[1] in g and not parampoly(body, p):
                    a = self.fresh('A')
                    if args and r.random() < .5 and t in args:
                        a = ps[args.index(t)]
                    else:
                        ps.append(a)
                        args.append(t)
                    body = put(body, p, ('p', a))
            if args:
                if r.random() < .3:
                    ps.insert(0, self.fresh('A'))
                    args.insert(0, ('r', r.choice(sorted(g))))
                x = self.fresh('P')
                self.polys.append((x, tuple(ps), (0,) * len(ps), body))
                g[n] = ('a', ('r', x), tuple(args))
        elif c == 4:    # a second copy of a definition that some references use
            x = self.fresh('C')
            g[x] = alpha(self, g[n])
            for m in sorted(g):
                for p, t in list(subs(g[m], ())):
                    if t == ('r', n) and p and r.random() < .5:
                        g[m] = put(g[m], p, ('r', x))
        elif c == 5:    # a local name for the whole
            x = self.fresh('X')
            if g[n][0] == 'd':
                g[n] = ('m', x, rep(g[n], {('r', n): ('r', x)}) if r.random() < .7 else g[n])
        elif c == 6:    # unroll a local name
            ms = [(p, t) for p, t in spots if t[0] == 'm']
            if ms:
                p, t = r.choice(ms)
                g[n] = put(g[n], p, rep(alpha(self, t[2]), {('r', t[1]): alpha(self, t)}))
        else:           # abstract a part that refers to nothing
            ok = [p for p, t in spots if p and closed(t, set()) and not parampoly(g[n], p)]
            if ok:
                p = r.choice(ok)
                x, a = self.fresh('P'), self.fresh('A')
                t = at(g[n], p)
                rest = put(g[n], p, ('p', a))
                if not any(u[0] == 'r' and u[1] in g for _, u in subs(rest, ())):
                    self.polys.append((x, (a,), (0,), rest))
                    g[n] = ('a', ('r', x), (t,))
        return g

    def size(self, t):
        """How big the type is, with the polys it applies."""
        if t[0] == 'r':
            q = [q for q in self.polys if q[0] == t[1]]
            return 1 + (self.size(q[0][3]) if q else 0)
        return 1 + sum(self.size(k) for k in kids(t))

    def perturb(self, g):
        """A small change that usually changes what some types denote."""
        r = self.r
        g = dict(g)
        n = r.choice(sorted(g))
        spots = [(p, t) for p, t in subs(g[n], ()) if not parampoly(g[n], p)]
        p, t = r.choice(spots)
        if t[0] == 'd' and r.random() < .8:
            fs = list(t[2])
            c = r.randrange(5)
            if c == 0 and len(fs) > 1:
                i, j = r.sample(range(len(fs)), 2)
                fs[i], fs[j] = fs[j], fs[i]
            elif c == 1 and len(fs) > 1:
                i, j = r.sample(range(len(fs)), 2)
                fs[i], fs[j] = (fs[i][0], fs[j][1]), (fs[j][0], fs[i][1])
            elif c == 2 and len(fs) > 1:
                del fs[r.randrange(len(fs))]
            elif c == 3:
                fs.append(('d', ('r', 'Unit')))
            elif fs:
                t = ('d', '*' if t[1] == '+' else '+', t[2])
            g[n] = put(g[n], p, ('d', t[1], tuple(fs)))
        elif t[0] == 'f':
            g[n] = put(g[n], p, ('f', t[2], t[1]))
        elif t[0] == 'k':
            g[n] = put(g[n], p, ('k', 'L' if t[1] == 'K' else 'K', t[2]) if r.random() < .6 else t[2])
        elif t[0] == 'a' and len(t[2]) > 1:
            q = [q for q in self.polys if ('r', q[0]) == t[1]]
            if q and not any(q[0][2]):
                g[n] = put(g[n], p, ('a', t[1], t[2][1:] + t[2][:1]))
        elif p:
            g[n] = put(g[n], p, ('r', r.choice(sorted(g) + ['Unit'])) if guarded(g[n], p) else ('r', 'Unit'))
        return g

    # ---------------------------------------------------------------- text
    def text(self, t):
        if t[0] in 'rp':
            return t[1] + '@'
        if t[0] == 'd':
            return t[1] + '(' + ', '.join(self.text(x) + ' ' + f for f, x in t[2]) + ')'
        if t[0] == 'f':
            return '(' + self.text(t[1]) + ') { ' + self.text(t[2]) + '; }'
        if t[0] == 'k':
            return t[1] + '@<' + self.text(t[2]) + '>'
        if t[0] == 'm':
            return '{ @ %s@ = %s; %s@; }' % (t[1], self.text(t[2]), t[1])
        return self.text(t[1]) + '<' + ', '.join(self.text(x) for x in t[2]) + '>'

    def polytext(self, q):
        ks = ['<@>@' if k else '@' for k in q[2]]
        return '<%s>@ %s@ = <%s> { %s; };' % (', '.join(ks), q[0], ', '.join('%s %s@' % (k, p) for k, p in zip(ks, q[1])),
                                              self.text(q[3]))

    def grouptext(self, g):
        return ', '.join('@ %s@ = %s' % (n, self.text(b)) for n, b in g.items()) + ';'


def kids(t):
    if t[0] == 'd':
        return [x for _, x in t[2]]
    if t[0] == 'f':
        return [t[1], t[2]]
    if t[0] == 'k':
        return [t[2]]
    if t[0] == 'm':
        return [t[2]]
    if t[0] == 'a':
        return [t[1]] + list(t[2])
    return []


def build(t, ks):
    if t[0] == 'd':
        return ('d', t[1], tuple((f, k) for (f, _), k in zip(t[2], ks)))
    if t[0] == 'f':
        return ('f', ks[0], ks[1])
    if t[0] == 'k':
        return ('k', t[1], ks[0])
    if t[0] == 'm':
        return ('m', t[1], ks[0])
    if t[0] == 'a':
        return ('a', ks[0], tuple(ks[1:]))
    return t


def subs(t, p):
    yield p, t
    for i, k in enumerate(kids(t)):
        yield from subs(k, p + (i,))


def at(t, p):
    for i in p:
        t = kids(t)[i]
    return t


def put(t, p, u):
    if not p:
        return u
    ks = kids(t)
    ks[p[0]] = put(ks[p[0]], p[1:], u)
    return build(t, ks)


def rep(t, m):
    if t in m:
        return m[t]
    return build(t, [rep(k, m) for k in kids(t)])


def alpha(g, t):
    """Local names made fresh."""
    t = build(t, [alpha(g, k) for k in kids(t)])
    if t[0] == 'm':
        x = g.fresh('X')
        return ('m', x, rep(t[2], {('r', t[1]): ('r', x)}))
    return t


def bound(t, p):
    """Does the part at p refer to a local name of t around it?"""
    names = set()
    for j in range(len(p)):
        u = at(t, p[:j])
        if u[0] == 'm':
            names.add(u[1])
    return any(u[0] == 'r' and u[1] in names for _, u in subs(at(t, p), ()))


def closed(t, names):
    if t[0] == 'r':
        return t[1] == 'Unit' or t[1] in names
    if t[0] == 'p':
        return False
    if t[0] == 'a':
        return all(closed(k, names) for k in t[2]) and t[1][0] == 'r'
    return all(closed(k, names | ({t[1]} if t[0] == 'm' else set())) for k in kids(t))


def parampoly(t, p):
    """Is the place a poly, or an argument of an application (which may be a poly)?"""
    return bool(p) and at(t, p[:-1])[0] == 'a' and (p[-1] == 0 or at(t, p)[0] == 'r' and at(t, p)[1][0] == 'P')


def guarded(t, p):
    """Is there a struct, union, function or abstract type around the place?"""
    return any(at(t, p[:j])[0] in 'dfk' for j in range(len(p)))


def program(pid, seed, pairs=12):
    r = random.Random(seed)
    G = Types(r)
    for _ in range(r.choice([0, 1, 2, 3])):
        G.poly()
    a = G.group(r.choice([1, 1, 2, 2, 3, 4]))
    names = sorted(a)
    b, m = G.rename(a)
    for _ in range(r.choice([0, 1, 2, 3, 5, 8])):
        nb = G.rewrite(b)
        if sum(G.size(t) for t in nb.values()) < 120:
            b = nb
    if r.random() < .6:
        nb = G.perturb(b)
        b = nb
    top = 'T%d' % pid
    pk = [[top, 'Q', 'P1'], [top, 'Q']]
    head = ['@ Unit@ = *(); Unit@ Unit = Unit@(); @ Bool@ = +(Unit@ true, Unit@ false);',
            '@ K@ = %%(/%s/Q/P1%%); @ L@ = %%(%s);' % (top, r.choice(['/%s/Q%%' % top, '/%s%%' % top]))]
    polys = [G.polytext(q) for q in G.polys]
    ga, gb = G.grouptext(a), G.grouptext(b)
    fs = []
    if r.random() < .3:
        # the second group comes from another module
        ns = [m[n] for n in names]
        fs.append(([top, 'Other'], '\n'.join(head + polys + [gb] + ['@(%s);' % ', '.join('%s@: %s@' % (n, n) for n in ns)]) + '\n'))
        gb = ' '.join('@ %s@ = /%s/Other%%.%s@;' % (n, top, n) for n in ns)
        polys = [G.polytext(q) for q in G.polys]
        bnames = ns
    else:
        bnames = sorted(b)
    lines = head + polys
    if r.random() < .2 and not fs:
        c = list(a.items()) + list(b.items())
        r.shuffle(c)
        lines.append(G.grouptext(dict(c)))
    else:
        lines += [ga, gb] if r.random() < .5 else [gb, ga]
    deep = None
    if r.random() < .12:
        # long chains of types that differ at most far down
        x = r.choice(names)
        t, u = ('r', x), ('r', m[x])
        if r.random() < .5:
            t, u = [('d', '*', ((f, y),)) for f, y in zip('ab', (t, u))]
        if r.random() < .5:
            t, u = u, t
        deep = G.fresh('Z'), G.fresh('W')
        k = r.choice([30, 70, 130])
        out = []
        for i in range(k):
            for z, y in zip(deep, (t, u)):
                out.append('@ %s_%d@ = %s' % (z, i, G.text(y)))
            c = r.randrange(4)
            f = r.choice(FIELDS)
            t, u = [('d', '*+'[c], ((f, ('r', '%s_%d' % (z, i))),)) if c < 2 else
                    ('f', ('r', '%s_%d' % (z, i)), ('r', 'Unit')) if c == 2 else ('f', ('r', 'Unit'), ('r', '%s_%d' % (z, i))) for z in deep]
        deep = [('r', '%s_%d' % (z, k - 1)) for z in deep]
        lines += ['; '.join(out[i:i + 8]) + ';' for i in range(0, len(out), 8)]
    lines.append('<@>% same = <@ A@>(A@ x, A@ _y) { x; };')
    lines.append('@(')
    first = len(lines) + 1
    for i in range(pairs):
        c = r.random()
        if deep and r.random() < .3:
            t, u = deep
        elif c < .7:
            n = r.choice(names)
            t, u = ('r', n), ('r', m[n])
        elif c < .8:
            t, u = ('r', r.choice(names)), ('r', r.choice(names))
        else:
            t, u = ('r', r.choice(names)), ('r', r.choice(bnames))
        if r.random() < .3:
            t, u = u, t
        while r.random() < .3:
            w = r.randrange(4)
            if w == 0:
                o = ('r', r.choice(names))
                t, u = ('f', t, o), ('f', u, o)
            elif w == 1:
                t, u = ('d', '*', (('a', t), ('b', u))), ('d', '*', (('a', u), ('b', t)))
            elif w == 2:
                t, u = ('f', u, t), ('f', t, u)
            elif G.polys:
                q = r.choice([q for q in G.polys])
                if len(q[2]) == 1 and not q[2][0]:
                    t, u = ('a', ('r', q[0]), (t,)), ('a', ('r', q[0]), (u,))
        if r.random() < .1:
            n = r.choice(names)
            t = a[n] if not any(x[0] == 'a' for _, x in subs(a[n], ())) else t
        T, U = G.text(t), G.text(u)
        lines.append('f%d: %s%s' % (i, form(r, T, U), ',' if i < pairs - 1 else ');'))
    fs.append(([top, 'Main'], '\n'.join(lines) + '\n'))
    if max(len(x) for x in lines) > 990:
        return program(pid, seed + 500009, pairs)       # the specification writes locations with columns below 1000
    return dict(id=pid, fuel=0, main=[top, 'Main'], fs=fs, first=first)


def form(r, T, U):
    """An expression that is well typed if and only if T and U are the same type."""
    return r.choice([
        '(%s x) { %s _y = x; Unit; }' % (U, T),
        '(%s x, (%s) { Unit@; } f) { f(x); }' % (U, T),
        '(%s x) { @ S@ = *(%s a); S@(x); }' % (U, T),
        '(%s x) { @ S@ = +(%s a, Unit@ b); S@(a: x); }' % (U, T),
        '(%s x, %s y, Bool@ b) { b.?(true: y, false: x); }' % (U, T),
        '(%s x, %s y, Bool@ b) { b.?(true: y, : x); }' % (U, T),
        '(%s x, %s y) { same(y, x); }' % (U, T),
        '(%s x, *(%s a, Unit@ b) s) { s.@(a: x); }' % (U, T),
        '((Unit@) { %s; } g, ((Unit@) { %s; }) { Unit@; } h) { h(g); }' % (U, T),
        '{ <@>%% g = <@ A@>(A@ x, %s _y) { x; }; <@>%% h = <@ A@>(A@ x, %s _y) { x; }; @<g> _k = h; Unit; }' % (U, T),
        '(((%s) { Unit@; }) { Unit@; } f) { %s _x <- f; Unit; }' % (U, T),
    ])
