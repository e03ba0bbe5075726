"""Random fble programs.  Nothing here decides what a program means: programs are mostly well typed and
terminating so that they are interesting, and the specification says what each must do."""
import random

TWIG = 3


def subst(t, m):
    if t[0] == 'V':
        return m.get(t[1], t)
    if t[0] in 'SU':
        return (t[0], tuple((n, subst(x, m)) for n, x in t[1]))
    if t[0] == 'F':
        return ('F', subst(t[1], m), subst(t[2], m))
    if t[0] == 'N':
        return ('N', t[1], tuple(subst(x, m) for x in t[2]))
    return t


def vars_(t):
    if t[0] == 'V':
        return {t[1]}
    if t[0] in 'SU':
        return set().union(*[vars_(x) for _, x in t[1]]) if t[1] else set()
    if t[0] == 'F':
        return vars_(t[1]) | vars_(t[2])
    if t[0] == 'N':
        return set().union(*[vars_(x) for x in t[2]]) if t[2] else set()
    return set()


class Gen:
    """One program.  self.mods: [(path, tokens)], the last is the main module."""

    def __init__(self, rnd, pid, opts=None):
        self.r, self.pid = rnd, pid
        self.o = dict(abort=0.5, warn=0.5, poly=0.7, pkg=0.3, lists=0.6, size=3, mods=3, nodes=150, viol=0, lit=0.4, typeof=0.1, odd=0.1)
        self.o.update(opts or {})
        self.n = 0
        self.decl = {}          # type name -> (params, type)
        self.mods = []
        self.exports = []       # (module, [(kind, name, entry)])
        self.left = self.o['nodes']
        self.memo = {}
        self.abs = {}           # abstract type name -> (package type name, type inside, package path)
        self.cur = []

    # ------------------------------------------------------------ helpers
    def p(self, x):
        return self.r.random() < x

    def fresh(self, base):
        self.n += 1
        return '%s%d' % (base, self.n)

    def body(self, t):
        """t with named types unfolded at the head."""
        for _ in range(20):
            if t[0] != 'N':
                return t
            ps, b = self.decl[t[1]]
            t = subst(b, dict(zip(ps, t[2])))
        return t

    def ty(self, t, env=()):
        """Tokens of a type."""
        if t[0] == 'V':
            return [t[1], '@']
        if t[0] == 'N':
            if t[2]:
                return [t[1], '@', '<', self.commas([self.ty(x) for x in t[2]]), '>']
            return [t[1], '@']
        if t[0] == 'F':
            args, r = [t[1]], t[2]
            while r[0] == 'F' and self.p(0.8):
                args.append(r[1])
                r = r[2]
            return ['(', self.commas([self.ty(a) for a in args]), ')', '{', self.ty(r), ';', '}']
        return ['*' if t[0] == 'S' else '+', '(', self.commas([[self.ty(x), n] for n, x in t[1]]), ')']

    @staticmethod
    def commas(xs):
        out = []
        for i, x in enumerate(xs):
            if i:
                out.append(',')
            out.append(x)
        return out

    # ------------------------------------------------------------ types
    def some_type(self, d=2, names=None):
        r = self.r
        ns = [n for n, (ps, b) in self.decl.items() if not ps and b[0] not in 'KA']
        ns += [n for n in self.abs]
        gs = [(n, ps) for n, (ps, _) in self.decl.items() if ps]
        c = r.random()
        if d > 0 and gs and c < 0.2 * (self.o['poly'] > 0):
            n, ps = r.choice(gs)
            return ('N', n, tuple(self.some_type(d - 1) for _ in ps))
        if d > 0 and c < 0.35:
            return ('F', self.some_type(d - 1), self.some_type(d - 1))
        return ('N', r.choice(ns), ())

    def type_decls(self):
        """Declarations of types; returns statements (token lists)."""
        r, out = self.r, []
        U = ('N', 'Unit', ())

        def add(name, params, t, rec=False):
            self.decl[name] = (tuple(params), t)
            if params:
                ks = ['<', self.commas([['@'] for _ in params]), '>', '@']
                b = self.ty(t)
                lhs = ['<', self.commas([['@', q, '@'] for q in params]), '>', '{']
                if rec:
                    # inside its own definition the type is not polymorphic: name the instance
                    inner = name + 'I'
                    t2 = self.rename(t, name, inner)
                    b = ['@', inner, '@', '=', self.ty(t2), ';', inner, '@']
                out.append([ks, name, '@', '=', lhs, b, ';', '}'])
            else:
                out.append(['@', name, '@', '=', self.ty(t)])
        add('Unit', [], ('S', ()))
        add('Bool', [], ('U', (('true', U), ('false', U))))
        k = r.choice([1, 2, 3, 4, 5, 8, 9, 17])
        add('Enum', [], ('U', tuple(('e%d' % i, U) for i in range(k))))
        add('Nat', [], ('U', (('S', ('N', 'Nat', ())), ('Z', U))))
        if self.p(self.o['lit']):
            self.letters = self.r.choice([['a', 'b', 'ab'], ['x'], ['0', '1', '00', '10'], ['(', ' ', "'", 'q'],
                                          ['\n', 'a', '\na'], ['\xc3\xa9', 'e'], ['aa', 'aaa', 'ab']])
            add('Letter', [], ('U', tuple((quote(x), U) for x in self.letters)))
            # a list of letters, with names of fields of its own
            add('Str', [], ('U', (('more', ('S', (('one', ('N', 'Letter', ())), ('rest', ('N', 'Str', ()))))), ('end', U))))
        if self.p(self.o['poly']):
            add('Maybe', ['T'], ('U', (('just', ('V', 'T')), ('nothing', U))))
            add('Pair', ['A', 'B'], ('S', (('fst', ('V', 'A')), ('snd', ('V', 'B')))))
        if self.p(self.o['lists']):
            add('List', ['T'], ('U', (('cons', ('S', (('head', ('V', 'T')), ('tail', ('N', 'List', (('V', 'T'),)))))),
                                      ('nil', U))), rec=True)
        for _ in range(r.randint(1, self.o['size'])):
            n = self.fresh('T')
            self.memo = {}
            c = r.random()
            if c < 0.45:
                add(n, [], ('S', tuple(('abcdefgh'[i], self.some_type(1)) for i in range(r.choice([0, 1, 2, 2, 3, 4])))))
            elif c < 0.85:
                add(n, [], ('U', tuple(('uvwxyz'[i], self.some_type(1) if self.p(.6) else U)
                                       for i in range(r.choice([1, 2, 3, 3, 4])))))
            else:
                add(n, [], self.some_type(1))
        return out

    def rename(self, t, a, b):
        if t[0] == 'N' and t[1] == a:
            return ('V', b)
        if t[0] in 'SU':
            return (t[0], tuple((n, self.rename(x, a, b)) for n, x in t[1]))
        if t[0] == 'F':
            return ('F', self.rename(t[1], a, b), self.rename(t[2], a, b))
        return t

    # ------------------------------------------------------------ expressions
    # env: list of (name or tokens, type or ('P', params, type), tag)
    def same(self, a, b):
        return a == b or (self.conc(a) is not None and self.conc(a) == self.conc(b))

    def conc(self, t, seen=()):
        return t if t[0] == 'N' else None

    def ref(self, n):
        return n if isinstance(n, list) else [n]

    def expr(self, t, env, d):
        r = self.r
        opts = []
        self.left -= 1
        for e in env:
            if e[1][0] != 'P' and e[1] == t:
                opts += [(3, lambda e=e: self.ref(e[0]))]
        if d <= 0 or self.left < 0:
            if opts and (self.left < 0 or self.p(0.8)):
                return self.pick(opts)()
            return self.least(t, env)
        opts.append((4, lambda: self.base(t, env, d)))
        for e in env:
            f = e[1]
            if f[0] == 'P':
                m = self.match(f[2], t, f[1])
                if m:
                    opts.append((2, lambda e=e, m=m: self.call(e, m, t, env, d)))
                continue
            # applications that yield t
            args, x = [], f
            while x[0] == 'F' and x != t:
                args.append(x[1])
                x = x[2]
                if x == t:
                    opts.append((3, lambda e=e, args=tuple(args): self.app(self.ref(e[0]), args, env, d)))
                if x[0] == 'N' and x != t:
                    y = self.body(x)
                    if y[0] == 'F' and len(args) < 3:
                        x = y
            b = self.body(f)
            if b[0] == 'S':
                for n, ft in b[1]:
                    if ft == t:
                        opts.append((2, lambda e=e, n=n: self.ref(e[0]) + ['.', n]))
            if b[0] == 'U' and self.o['abort'] and self.p(0.15 * self.o['abort']):
                for n, ft in b[1]:
                    if ft == t:
                        opts.append((1, lambda e=e, n=n: self.ref(e[0]) + ['.', n]))
        for a, (pk, inner, _) in self.abs.items():
            if inner == t and (self.inside(a) or self.p(self.o['viol'] * 0.2)):
                opts.append((2, lambda a=a: self.expr(('N', a, ()), env, d - 1) + ['.', '%']))
            if (self.inside(a) and self.p(0.4)) or self.p(self.o['viol'] * 0.1):
                opts.append((1, lambda a=a: self.cast(a, t, env, d)))
            if self.p(self.o['viol'] * 0.1) and t == ('N', a, ()):
                opts.append((2, lambda pk=pk, i=inner: [pk, '@', '(', self.expr(i, env, d - 1), ')']))
        if t == ('N', 'Str', ()) and self.p(0.8):
            opts.append((4, lambda: ['str', '|', self.word()]))
        opts.append((2, lambda: self.let(t, env, d)))
        opts.append((3, lambda: self.select(t, env, d)))
        if self.o['abort'] and self.p(0.2 * self.o['abort']):
            us = [(u, n) for u in self.unions() for n, x in self.body(u)[1] if x == t]
            if us:
                opts.append((2, lambda: self.field(us, env, d)))
            opts.append((1, lambda: self.early(t, env, d)))
        if self.p(0.3):
            opts.append((1, lambda: ['{', self.expr(t, env, d - 1), ';', '}']))
        if self.p(0.3):
            opts.append((2, lambda: self.redex(t, env, d)))
        if self.p(0.2):
            opts.append((1, lambda: self.bind(t, env, d)))
        return self.pick(opts)()

    def pick(self, opts):
        tot = sum(w for w, _ in opts)
        x = self.r.random() * tot
        for w, f in opts:
            x -= w
            if x <= 0:
                return f
        return opts[-1][1]

    def match(self, pat, t, ps, m=None):
        """Bindings of the variables ps that make (the final result of) pat equal t."""
        x = pat
        while x[0] == 'F':
            x = x[2]
        m = {}

        def go(a, b):
            if a[0] == 'V' and a[1] in ps:
                if a[1] in m:
                    return m[a[1]] == b
                m[a[1]] = b
                return True
            if a[0] != b[0]:
                return False
            if a[0] == 'N':
                return a[1] == b[1] and len(a[2]) == len(b[2]) and all(go(x, y) for x, y in zip(a[2], b[2]))
            if a[0] == 'F':
                return go(a[1], b[1]) and go(a[2], b[2])
            return a == b
        if not go(x, t):
            return None
        for q in ps:
            m.setdefault(q, self.some_type(0))
        return m

    def call(self, e, m, t, env, d):
        """A polymorphic function applied to all of its arguments."""
        f = e[1]
        x, args = subst(f[2], m), []
        while x[0] == 'F' and x != t:
            args.append(x[1])
            x = x[2]
        fn = self.ref(e[0])
        # type arguments are inferred from the first argument alone
        if self.p(0.5) or not args or (not set(f[1]) <= vars_(self.head(f[2])) and self.p(0.97)):
            fn = fn + ['<', self.commas([self.ty(m[q]) for q in f[1]]), '>']
        return self.app(fn, args, env, d) if args else fn

    def head(self, t):
        return t[1] if t[0] == 'F' else ('S', ())

    def app(self, fn, args, env, d):
        out, i = list(fn), 0
        args = list(args)
        if len(args) == 1 and self.p(0.1):
            return out + self.listlit(args[0], env, d)
        while i < len(args):
            k = len(args) - i if self.p(0.8) else self.r.randint(1, len(args) - i)
            out += ['(', self.commas([self.expr(a, env, d - 1) for a in args[i:i + k]]), ')']
            i += k
        return out

    def listlit(self, t, env, d):
        if t[0] == 'N' and t[1] == 'List':
            n = self.r.choice([0, 1, 1, 2, 3])
            return ['[', self.commas([self.expr(t[2][0], env, d - 1) for _ in range(n)]), ']']
        return ['(', self.expr(t, env, d - 1), ')']

    def base(self, t, env, d):
        """A constructor of t."""
        r = self.r
        b = self.body(t)
        if b[0] == 'S':
            fs = b[1]
            c = r.random()
            if c < 0.15 and fs and d > 0:
                src = [e for e in env if e[1] == t]
                if src:
                    pick = sorted(r.sample(range(len(fs)), r.randint(1, len(fs))))
                    return self.ref(r.choice(src)[0]) + ['.', '@', '(', self.commas(
                        [[fs[i][0], ':', self.expr(fs[i][1], env, d - 1)] for i in pick]), ')']
            if c < 0.3 or t[0] == 'S':
                return ['@', '(', self.commas([[n, ':', self.expr(x, env, d - 1)] for n, x in fs]), ')']
            return self.ty(t) + ['(', self.commas([self.expr(x, env, d - 1) for _, x in fs]), ')']
        if b[0] == 'U':
            fs = b[1]
            if t[0] == 'N' and t[1] == 'List':
                ids = [e for e in env if e[1][0] == 'F' and e[1][1] == t and e[1][2] == t]
                if ids and self.p(0.4):
                    return self.ref(r.choice(ids)[0]) + self.listlit(t, env, d)
            if vars_(t):
                can = [f for f in fs if self.can(f[1], env)]
                fs = can or fs
            small = [i for i, (_, x) in enumerate(fs) if self.body(x)[0] == 'S' and not self.body(x)[1]]
            i = r.choice(small) if small and (d <= 0 or self.p(0.3)) else r.randrange(len(fs))
            n, x = fs[i]
            ty = self.ty(t)
            if t[0] == 'N' and t[2] and vars_(dict(self.decl[t[1]][1][1])[n]) >= set(self.decl[t[1]][0]) and self.p(0.5):
                ty = [t[1], '@']        # parameters left to inference
            return ty + ['(', n, ':', self.expr(x, env, d - 1), ')']
        if b[0] == 'A':
            pk, inner, _ = self.abs[t[1]]
            if self.inside(t[1]):
                return [pk, '@', '(', self.expr(inner, env, d - 1), ')']
            mk = [e for e in env if e[1] == ('F', inner, t)]
            if mk:
                return self.ref(r.choice(mk)[0]) + ['(', self.expr(inner, env, d - 1), ')']
            return self.least(t, env)
        if b[0] == 'F':
            args, x = [b[1]], b[2]
            while x[0] == 'F' and self.p(0.7):
                args.append(x[1])
                x = x[2]
            return self.func(args, x, env, d)
        return self.least(t, env)

    def depth(self, t, k=8):
        """The least depth of constructors of a value of type t, or None above k."""
        if k < 0:
            return None
        if (t, k) in self.memo:
            return self.memo[t, k]
        b = self.body(t)
        if b[0] == 'S':
            ds = [self.depth(x, k - 1) for _, x in b[1]]
            d = None if None in ds else 1 + max(ds + [0])
        elif b[0] == 'U':
            ds = [x for x in (self.depth(x, k - 1) for _, x in b[1]) if x is not None]
            d = 1 + min(ds) if ds else None
        elif b[0] == 'F':
            d = self.depth(b[2], k - 1)
            d = d if d is None else d + 1
        else:
            d = 5
        self.memo[t, k] = d
        return d

    def least(self, t, env):
        """A smallest expression of type t."""
        for e in env:
            if e[1] == t and not isinstance(e[0], list):
                return self.ref(e[0])
        b = self.body(t)
        if b[0] == 'S':
            if t[0] == 'S':
                return ['@', '(', self.commas([[n, ':', self.least(x, env)] for n, x in b[1]]), ')']
            return self.ty(t) + ['(', self.commas([self.least(x, env) for _, x in b[1]]), ')']
        if b[0] == 'U':
            fs = [f for f in b[1] if not vars_(t) or self.can(f[1], env)] or b[1]
            n, x = min(fs, key=lambda f: self.depth(f[1]) or 99)
            return self.ty(t) + ['(', n, ':', self.least(x, env), ')']
        if b[0] == 'F':
            n = self.argname()
            return ['(', self.ty(b[1]), n, ')', '{', self.least(b[2], env + [(n, b[1], 'arg')]), ';', '}']
        if b[0] == 'A':
            pk, inner, _ = self.abs[t[1]]
            if self.inside(t[1]):
                return [pk, '@', '(', self.least(inner, env), ')']
            for e in env:
                if e[1] == ('F', inner, t):
                    return self.ref(e[0]) + ['(', self.least(inner, env), ')']
        for e in env:
            f, args = e[1], []
            while f[0] == 'F' and f != t:
                args.append(f[1])
                f = f[2]
            if f == t and args and all(a != t and any(x[1] == a for x in env) for a in args):
                return self.ref(e[0]) + ['(', self.commas([self.least(a, env) for a in args]), ')']
            y = self.body(e[1]) if e[1][0] != 'P' else e[1]
            if y[0] == 'S':
                for n, x in y[1]:
                    if x == t:
                        return self.ref(e[0]) + ['.', n]
            if y[0] == 'U' and self.p(0.7):
                for n, x in y[1]:
                    if x == t:
                        return self.ref(e[0]) + ['.', n]
        return ['missing']

    def can(self, t, env):
        """Is there something to make a value of type t (which has variables) of?"""
        try:
            return 'missing' not in flat(self.least(t, env))
        except RecursionError:
            return False

    def unions(self):
        return [('N', n, ()) for n, (ps, b) in self.decl.items() if not ps and b[0] == 'U']

    def field(self, us, env, d):
        """A field of a union that may hold another."""
        u, n = self.r.choice(us)
        return self.expr(u, env, d - 1) + ['.', n]

    def early(self, t, env, d):
        """A definition that uses what is not defined yet."""
        r = self.r
        v = self.fresh('v')
        k = r.random()
        if k < 0.3:
            u = r.choice(self.unions())
        elif k < 0.6:
            ss = [('N', n, ()) for n, (ps, b) in self.decl.items() if not ps and b[0] == 'S' and b[1]]
            u = r.choice(ss or self.unions())
        else:
            u = ('F', self.some_type(0), self.some_type(0))
        e2 = [e for e in env if e[0] != v] + [(v, u, 'let')]
        b = self.body(u)
        if b[0] == 'U':
            use = [v, '.', '?', '(', self.commas([[n, ':', self.base(u, env, d - 1)] for n, _ in b[1]]), ')']
        elif b[0] == 'S':
            use = [v, '.', '@', '(', b[1][0][0], ':', self.expr(b[1][0][1], env, d - 1), ')']
            if len(b[1]) == 1:
                use = self.ty(u) + ['(', v, '.', b[1][0][0], ')']
        else:
            x = self.argname()
            inner = [v, '(', self.least(u[1], env), ')']
            use = ['{', self.ty(u[2]), x, '=', inner, ';', self.base(u, env + [(x, u[2], 'let')], d - 1), ';', '}']
        if self.p(0.5):
            x = self.argname()
            w = self.some_type(0)
            use = ['(', self.ty(w), x, ')', '{', use, ';', '}', '(', self.expr(w, env, d - 1), ')']
            if self.p(0.5):
                y = self.fresh('y')
                use = ['{', self.ty(u), y, '=', use, ';', y, ';', '}']
        return ['{', self.ty(u), v, '=', use, ';', self.expr(t, e2, d - 1), ';', '}']

    def inside(self, a):
        p = self.abs[a][2]
        return self.cur[:len(p)] == p

    def cast(self, a, t, env, d):
        pk, inner, _ = self.abs[a]

        def swap(x):
            if x == ('N', a, ()) and self.p(0.7):
                return inner
            if x == inner and self.p(0.5):
                return ('N', a, ())
            if x[0] == 'F':
                return ('F', swap(x[1]), swap(x[2]))
            if x[0] == 'N':
                return ('N', x[1], tuple(swap(y) for y in x[2]))
            return x
        return [pk, '@', '.', '<', self.ty(t), '>', '(', self.expr(swap(t), env, d - 1), ')']

    def word(self):
        n = self.r.choice([1, 1, 2, 3, 5])
        ls = self.letters[:-1] if len(self.letters) > 1 and self.p(0.8) else self.letters
        w = ''.join(self.r.choice(ls) for _ in range(n))
        return quote(w, self.r.random() < 0.3)

    def argname(self):
        n = self.fresh('x')
        return '_' + n if self.p(0.5) else n

    def func(self, args, res, env, d):
        names = [self.argname() for _ in args]
        if self.p(0.05) and len(names) > 1:
            names[1] = names[0]
        e2 = env + [(n, a, 'arg') for i, (n, a) in enumerate(zip(names, args)) if n not in names[i + 1:]]
        return ['(', self.commas([[self.ty(a), n] for n, a in zip(names, args)]), ')',
                '{', self.expr(res, e2, d - 1), ';', '}']

    def redex(self, t, env, d):
        args = [self.some_type(1) for _ in range(self.r.choice([1, 1, 2, 3]))]
        f = self.func(args, t, env, d)
        return f + ['(', self.commas([self.expr(a, env, d - 1) for a in args]), ')']

    def bind(self, t, env, d):
        args = [self.some_type(0) for _ in range(self.r.choice([1, 1, 2]))]
        names = [self.argname() for _ in args]
        ft = t
        for a in reversed(args):
            ft = ('F', a, ft)
        e2 = env + [(n, a, 'arg') for n, a in zip(names, args)]
        f = self.fresh('k')
        app = [f, '(', self.commas([self.expr(a, env, 0) for a in args]), ')']
        fn = ['(', self.ty(ft), f, ')', '{', app, ';', '}']
        return ['{', self.commas([[self.ty(a), n] for n, a in zip(names, args)]), '<', '-', fn, ';',
                self.expr(t, e2, d - 1), ';', '}']

    def scrut(self, env, d):
        """An expression of a union type: (tokens, type, fields)."""
        r = self.r
        cand = [e for e in env if e[1][0] != 'P' and self.body(e[1])[0] == 'U']
        if cand and self.p(0.8):
            e = r.choice(cand)
            return self.ref(e[0]), e[1], True
        us = [('N', n, ()) for n, (ps, b) in self.decl.items() if not ps and b[0] == 'U']
        t = r.choice(us)
        return self.expr(t, env, d - 1), t, False

    def select(self, t, env, d):
        s, ut, isvar = self.scrut(env, d)
        fs = self.body(ut)[1]
        r = self.r
        keep = [i for i in range(len(fs)) if self.p(0.75)] or [r.randrange(len(fs))]
        default = len(keep) < len(fs) or self.p(0.1)
        out = s + ['.', '?', '(']
        ch = []
        for i in keep:
            e2 = env
            if isvar and self.p(0.8):
                e2 = env + [(s + ['.', fs[i][0]], fs[i][1], 'fld')]
            ch.append([fs[i][0], ':', self.expr(t, e2, d - 1)])
        out += [self.commas(ch)]
        if default and self.p(0.3):
            return ['{'] + out + [')', ';', self.expr(t, env, d - 1), ';', '}']
        if default:
            out += [',', ':', self.expr(t, env, d - 1)]
        return out + [')']

    def let(self, t, env, d):
        r = self.r
        n = self.r.choice([1, 1, 2, 3])
        names = [self.fresh('v') for _ in range(n)]
        names = ['_' + x if self.p(0.25) else x for x in names]
        if env and self.p(0.1):
            names[0] = self.r.choice([e[0] for e in env if not isinstance(e[0], list)] or names[:1])
        tys = [self.some_type(1) for _ in range(n)]
        e2 = [e for e in env if e[0] not in names] + [(x, u, 'let') for x, u in zip(names, tys)]
        infer = [self.p(0.4) and self.body(u)[0] != 'F' or self.p(0.15) for u in tys]
        eo = [e for e in env if e[0] not in names] + [(x, u, 'let') for x, u, i in zip(names, tys, infer) if not i]
        bs = []
        e3 = [e for e in env if e[0] not in names]
        for x, u, inf in zip(names, tys, infer):
            if self.body(u)[0] == 'F':
                ex = self.base(u, eo, d - 1)            # may refer to the bindings themselves
            elif self.p(0.05 * self.o['abort']) or self.p(0.01):
                ex = self.expr(u, eo, d - 1)
            else:
                ex = self.expr(u, e3, d - 1)
            same = [e[0] for e in e3 if e[1] == u]
            if same and self.p(self.o['typeof']):
                bs.append(['@', '<', self.ref(r.choice(same)), '>', x, '=', ex])
            elif inf:
                bs.append(['%', x, '=', ex])
            else:
                bs.append([self.ty(u), x, '=', ex])
        body = self.expr(t, e2, d - 1)
        if self.p(0.25):
            loc = self.fresh('L')
            return ['{', '@', loc, '@', '=', self.ty(self.some_type(1)), ';', self.commas(bs), ';', body, ';', '}']
        return ['{', self.commas(bs), ';', body, ';', '}']

    # ------------------------------------------------------------ modules
    def recfun(self, env, name):
        """A function by structural recursion on a Nat or a list."""
        r = self.r
        res = self.some_type(0)
        extra = [self.some_type(0) for _ in range(r.choice([0, 0, 1, 2]))]
        over = ('N', 'Nat', ())
        if 'List' in self.decl and self.p(0.4):
            over = ('N', 'List', (self.some_type(0),))
        first = self.p(0.7)
        args = [over] + extra if first else extra + [over]
        ft = res
        for a in reversed(args):
            ft = ('F', a, ft)
        ns = [self.fresh('n') for _ in args]
        me = ns[0] if first else ns[-1]
        e1 = env + [(n, a, 'arg') for n, a in zip(ns, args)]
        rest = [me, '.', 'S'] if over[1] == 'Nat' else [me, '.', 'cons', '.', 'tail']
        rec = self.app([name], [], env, 0)
        d = self.o['size']

        def reccall(dd):
            xs = [rest if (i == 0) == first and (first or i == len(args) - 1) else self.expr(a, e1, dd)
                  for i, a in enumerate(args)]
            xs[0 if first else -1] = rest
            if self.p(0.2):
                return [name] + sum([['(', x, ')'] for x in xs], [])
            return [name, '(', self.commas(xs), ')']
        if self.p(0.4):
            step = reccall(d - 1)                     # tail call
        else:
            v = self.fresh('w')
            e2 = e1 + [(v, res, 'let')]
            if over[1] == 'List':
                e2 = e2 + [([me, '.', 'cons', '.', 'head'], over[2][0], 'fld')]
            step = ['{', self.ty(res), v, '=', reccall(d - 1), ';', self.expr(res, e2, d - 1), ';', '}']
        base = self.expr(res, e1, d - 1)
        a, b = ('S', 'Z') if over[1] == 'Nat' else ('cons', 'nil')
        body = [me, '.', '?', '(', a, ':', step, ',', b, ':', base, ')']
        fn = ['(', self.commas([[self.ty(x), n] for n, x in zip(ns, args)]), ')', '{', body, ';', '}']
        return [self.ty(ft), name, '=', fn], (name, ft, 'let')

    def polyfun(self, env, name):
        r = self.r
        A, B = ('V', 'PA'), ('V', 'PB')
        forms = [
            (('PA',), ('F', A, A)),
            (('PA', 'PB'), ('F', A, ('F', B, A))),
            (('PA', 'PB'), ('F', ('F', A, B), ('F', A, B))),
            (('PA',), ('F', ('N', 'Bool', ()), ('F', A, ('F', A, A)))),
        ]
        if 'Maybe' in self.decl:
            forms.append((('PA', 'PB'), ('F', ('F', A, B), ('F', ('N', 'Maybe', (A,)), ('N', 'Maybe', (B,))))))
            forms.append((('PA', 'PB'), ('F', ('N', 'Pair', (A, B)), ('N', 'Pair', (B, A)))))
        if 'List' in self.decl:
            forms.append((('PA',), ('F', ('N', 'List', (A,)), ('N', 'List', (A,)))))
        ps, t = r.choice(forms)
        kinds = ['<', self.commas([['@', q, '@'] for q in ps]), '>']
        args, x = [], t
        while x[0] == 'F':
            args.append(x[1])
            x = x[2]
        ns = [self.fresh('q') for _ in args]
        e2 = [(n, a, 'arg') for n, a in zip(ns, args)]
        body = self.expr(x, [e for e in env if False] + e2, 2)
        fn = kinds + ['(', self.commas([[self.ty(a), n] for n, a in zip(ns, args)]), ')', '{', body, ';', '}']
        return [['<', self.commas([['@'] for _ in ps]), '>', '%', name, '=', fn]], (name, ('P', ps, t), 'let')

    def package(self, stmts, env, exp, path):
        r = self.r
        pk, ab = self.fresh('Pk'), self.fresh('Ab')
        pp = list(path[:r.randint(0, len(path))])
        if self.p(0.1 * self.o['viol']):
            pp = [path[0], r.choice(['Sub', 'M', 'M0', 'Main'])]
        inner = self.some_type(1)
        self.decl[pk] = ((), ('K',))
        self.decl[ab] = ((), ('A', ab))
        self.memo = {}
        self.abs[ab] = (pk, inner, pp)
        T = ('N', ab, ())
        pe = ['%', '('] + (self.path(pp) if pp else []) + [')']
        stmts.append(['@', pk, '@', '=', pe])
        stmts.append(['@', ab, '@', '=', pk, '@', '<', self.ty(inner), '>'])
        exp += [('type', pk), ('type', ab)]
        q = pe if self.p(0.3) else [pk, '@']
        for f, ft, b in [('mk', ('F', inner, T), q + ['(', 'x', ')']),
                         ('un', ('F', T, inner), ['x', '.', '%'])]:
            n = self.fresh(f)
            stmts.append([self.ty(ft), n, '=', '(', self.ty(ft[1]), 'x', ')', '{', b, ';', '}'])
            env.append((n, ft, 'keep'))
            exp.append(('val', n, env[-1]))

    def path(self, m):
        return sum([['/', x] for x in m], []) + ['%']

    def module(self, path, main, imports):
        r = self.r
        stmts, env, exp = [], [], []
        if not imports:
            stmts += self.type_decls()
            for n in self.decl:
                exp.append(('type', n))
        else:
            types = set()
            for mp, ex in imports:
                for kind, n, *rest in ex:
                    if kind == 'type' and n not in types:
                        types.add(n)
                        ps = self.decl[n][0]
                        k = ['<', self.commas([['@'] for _ in ps]), '>', '@'] if ps else ['@']
                        stmts.append([k, n, '@', '=', self.path(mp), '.', n, '@'])
                        exp.append(('type', n))
                    elif kind == 'val' and (self.p(0.8) or rest[0][2] == 'keep') and \
                            n not in [e[0] for e in env if not isinstance(e[0], list)]:
                        ent = rest[0]
                        if self.p(0.5) and ent[2] != 'keep':
                            env.append((self.path(mp) + ['.', n], ent[1], 'imp'))
                        else:
                            k = ['<', self.commas([['@'] for _ in ent[1][1]]), '>', '%'] if ent[1][0] == 'P' else \
                                (['%'] if self.p(.6) else self.ty(ent[1]))
                            stmts.append([k, n, '=', self.path(mp), '.', n])
                            env.append(ent)
        self.cur = list(path)
        if not imports and 'Str' in self.decl:
            ft = ('F', ('N', 'Str', ()), ('N', 'Str', ()))
            stmts.append([self.ty(ft), 'str', '=', '(', 'Str', '@', 's', ')', '{', 's', ';', '}'])
            env.append(('str', ft, 'keep'))
            exp.append(('val', 'str', env[-1]))
        if self.p(self.o['pkg']):
            self.package(stmts, env, exp, path)
        d = self.o['size']
        for _ in range(r.randint(1, 1 + self.o['size'])):
            c = r.random()
            name = self.fresh('g')
            if c < 0.3:
                s, ent = self.recfun(env, name)
                stmts.append(s)
            elif c < 0.3 + 0.25 * self.o['poly']:
                s, ent = self.polyfun(env, name)
                stmts += s
            elif c < 0.6:
                t = ('F', self.some_type(1), self.some_type(1))
                if self.p(0.5):
                    t = ('F', self.some_type(1), t)
                ent = (name, t, 'let')
                stmts.append([self.ty(t), name, '=', self.base(t, env + ([ent] if self.p(0.1) else []), d)])
            else:
                t = self.some_type(1)
                ent = (name, t, 'let')
                stmts.append([self.ty(t) if self.p(0.7) else ['%'], name, '=', self.expr(t, env, d)])
            env.append(ent)
            exp.append(('val', name, ent))
        if not main:
            ex = [x for x in exp if x[0] == 'type' or x[2][2] == 'keep' or self.p(0.8)]
            toks = ['@', '(', self.commas([[x[1], '@'] if x[0] == 'type' else [x[1]] for x in ex]), ')']
            self.exports.append((path, ex))
        else:
            k = r.randint(1, 3)
            ts = [self.some_type(1) for _ in range(k)]
            toks = ['@', '(', self.commas([['r%d' % i, ':', self.expr(t, env, d)] for i, t in enumerate(ts)]), ')']
        out = []
        for s in stmts:
            out += [s, ';']
        self.mods.append((path, out + [toks, ';']))

    def program(self):
        k = self.r.choice([1, 1, 2, 2, 3, 4])
        k = min(k, self.o['mods'])
        top = 'P%d' % self.pid
        for i in range(k):
            main = i == k - 1
            path = [top, 'Main'] if main else [top] + self.r.choice([['M%d' % i], ['Sub', 'M%d' % i]])
            imp = self.exports if self.p(0.5) else self.exports[-1:]
            self.module(path, main, list(imp))
        return [(p, flat(t)) for p, t in self.mods]


def flat(t):
    out = []
    for x in t:
        if isinstance(x, list):
            out += flat(x)
        else:
            out.append(x)
    return out


def quote(w, force=False):
    """The word w as a token."""
    if w and not force and not any(c in PUNCT or c in " \t\r\n\v\f'#" for c in w):
        return w
    return "'" + w.replace("'", "''") + "'"


PUNCT = set('(){}[];,:?=.<>+*-!$@~|%/^&')


def isword(t):
    return not (len(t) == 1 and t in PUNCT)


def layout(toks, r, style=0):
    """Text of a token list.  style 0: a statement per line; 1: random white space and comments."""
    out, depth, prev = [], 0, ''
    for t in toks:
        gap = ''
        if prev and isword(t) and isword(prev):
            gap = ' '
        elif prev in (',', ':') or t == '=' or prev == '=' or (prev == '@' and isword(t)) or (prev == '%' and isword(t)):
            gap = ' '
        if prev == ';' and out:
            gap = '\n' + '  ' * min(depth - (t == '}'), 12)
        elif prev == '{':
            gap = ' '
        if style == 1 and out and r.random() < 0.15:
            gap = gap + r.choice([' ', '\n', '  ', '\t', ' # note ; ( {\n', '\n\n', '\r\n'])
        if t in '{(':
            depth += 1
        if t in '})':
            depth -= 1
        out.append(gap + t)
        prev = t
    return ''.join(out) + '\n'


def mutate(toks, r, words, keep=False):
    """A small change of a token list.  keep: a change that usually leaves the syntax right."""
    toks = list(toks)
    n = len(toks)
    ws = [i for i in range(n) if isword(toks[i])]
    c = r.random()
    if keep:
        c = c * 0.77
        c = c if c < 0.35 else c + 0.23
    i = r.randrange(n)
    if c < 0.35 and keep and ws and r.random() < 0.8:
        k = r.choice(ws)
        same = [toks[j] for j in ws if toks[j][-1:] == toks[k][-1:] or toks[j][-1:] not in '@%' and toks[k][-1:] not in '@%']
        toks[k] = r.choice(same)
    elif c < 0.35 and ws:
        toks[r.choice(ws)] = r.choice([toks[r.choice(ws)]] * 3 + words)
    elif c < 0.42:
        del toks[i]
    elif c < 0.47:
        toks.insert(i, r.choice(toks))
    elif c < 0.53 and n > 1:
        i = r.randrange(n - 1)
        toks[i], toks[i + 1] = toks[i + 1], toks[i]
    elif c < 0.58:
        ps = [k for k in range(n) if not isword(toks[k])]
        toks[r.choice(ps)] = r.choice('(){};,:?=.<>+*@%/|[]-')
    elif c < 0.78:
        # exchange, drop or repeat whole elements of a bracketed, comma separated sequence
        spans = elements(toks)
        if spans:
            el = r.choice(spans)
            k = r.random()
            if len(el) > 1 and k < 0.5:
                a, b = sorted(r.sample(range(len(el)), 2))
                A, B = el[a], el[b]
                toks = toks[:A[0]] + toks[B[0]:B[1]] + toks[A[1]:B[0]] + toks[A[0]:A[1]] + toks[B[1]:]
            elif len(el) > 1 and k < 0.75:
                a = r.randrange(1, len(el))
                toks = toks[:el[a - 1][1]] + toks[el[a][1]:]
            else:
                a = r.choice(el)
                toks = toks[:a[1]] + [','] + toks[a[0]:a[1]] + toks[a[1]:]
    elif c < 0.9:
        # replace one element by another element from elsewhere
        spans = [e for el in elements(toks) for e in el]
        if len(spans) > 1:
            A, B = r.sample(spans, 2)
            toks = toks[:A[0]] + toks[B[0]:B[1]] + toks[A[1]:]
    else:
        st = [k for k in range(n) if toks[k] == ';']
        if len(st) > 2:
            k = r.randrange(1, len(st))
            toks = toks[:st[k - 1] + 1] + toks[st[k] + 1:]     # drop a statement
    return toks


def elements(toks):
    """[(start, end)] lists, one for each bracketed sequence."""
    out, stack = [], []
    for i, t in enumerate(toks):
        if t in ('(', '['):
            stack.append([i + 1, []])
        elif t == '{':
            stack.append(None)
        elif t == '}' and stack:
            stack.pop()
        elif t == ',' and stack and stack[-1]:
            stack[-1][1].append((stack[-1][0], i))
            stack[-1][0] = i + 1
        elif t in (')', ']') and stack:
            s = stack.pop()
            if s and i > s[0]:
                s[1].append((s[0], i))
                out.append(s[1])
    return out
