"""Random fbld documents as abstract markup plus concrete text (with the source location of every command)."""
import random

ALPHA = list('abcxyz') + [' ', '1', '\n', ',', '"', '\\', '[', ']', '@', '{', '}', '%']
NAMES = ['f', 'g', 'h', 'x', 'y', 'foo', 'Bar_1', '9', 'head', 'let']


class W:
    """Concrete text writer that tracks line and column."""

    def __init__(self):
        self.s, self.line, self.col = [], 1, 1

    def w(self, t):
        for c in t:
            self.s.append(c)
            if c == '\n':
                self.line += 1
                self.col = 1
            else:
                self.col += 1

    def loc(self):
        return [self.line, self.col]

    def text(self):
        return ''.join(self.s)


def esc(t, rng):
    out = []
    for c in t:
        if c in '@[]\\':
            out.append('\\' + c)
        elif c == '\n' and rng.random() < 0.5:
            out.append('\\n')
        else:
            out.append(c)
    return ''.join(out)


def bal(t):
    n = 0
    for c in t:
        if c == '{':
            n += 1
        if c == '}':
            n -= 1
            if n < 0:
                return False
    return n == 0


class Gen:
    def __init__(self, rng):
        self.rng = rng
        self.tame = False

    def text(self, n=None):
        r = self.rng
        n = (r.choice([0, 0, 1, 1, 2, 3]) if r.random() < 0.99 else r.randrange(8, 60)) if n is None else n
        pool = ALPHA if r.random() < 0.4 else list('ab')
        return ''.join(r.choice(pool) for _ in range(n))

    def plain(self, t=None):
        return dict(t='p', s=self.text() if t is None else t)

    def seq(self, xs):
        return dict(t='s', m=xs)

    def cmd(self, n, *a):
        return dict(t='c', n=n, a=list(a))

    def arg(self, d, sc):
        """An argument: a sequence of pieces."""
        r = self.rng
        n = r.choice([0, 1, 1, 1, 2, 2, 3])
        if d < -1:
            return self.seq([self.plain()])
        return self.seq([self.piece(d, sc) for _ in range(n)])

    def word(self, d, sc, w):
        """Markup that (mostly) denotes the word w."""
        r = self.rng
        x = r.random()
        if x < 0.75 or d <= 0 or (self.tame and x < 0.9):
            return self.seq([self.plain(w)])
        if x < 0.8:
            return self.arg(d - 1, sc)
        if x < 0.85:
            i = r.randrange(len(w) + 1)
            return self.seq([self.plain(w[:i]), self.cmd('head', self.seq([])), self.plain(w[i:])])
        if x < 0.9:
            return self.seq([self.cmd('tail', self.seq([self.plain(r.choice('abz') + w)]))])
        if x < 0.95:
            return self.seq([self.cmd('ifeq', self.seq([self.plain('a')]), self.seq([self.plain(r.choice('ab'))]),
                                      self.seq([self.plain(w)]), self.seq([self.plain(w)]))])
        vs = [n for n, k in sc if k == 0]
        return self.seq([self.cmd(r.choice(vs))]) if vs else self.seq([self.plain(w)])

    def piece(self, d, sc):
        r = self.rng
        x = r.random()
        if d <= 0 or x < 0.22:
            if sc and r.random() < 0.6:
                return self.call(min(d, 0), sc)
            return self.plain()
        d -= 1
        if x < 0.42 and sc:
            return self.call(d, sc)
        if self.tame and (0.42 <= x < 0.50 or x >= 0.97):
            x = r.choice([0.51, 0.57, 0.65, 0.65, 0.75, 0.85])
        if x < 0.47:   # unknown command, possibly defined later
            return self.cmd(r.choice(NAMES[:8]), *[self.arg(d, sc) for _ in range(r.choice([0, 0, 1, 2]))])
        if x < 0.50:
            return self.cmd('error', self.arg(d, sc))
        if x < 0.56:
            return self.cmd('head', self.arg(d, sc))
        if x < 0.62:
            return self.cmd('tail', self.arg(d, sc))
        if x < 0.72:
            a = self.arg(d, sc)
            b = a if r.random() < 0.3 else self.arg(d, sc)
            return self.cmd(r.choice(['ifeq', 'ifneq']), a, b, self.arg(d, sc), self.arg(d, sc))
        if x < 0.80:
            n = r.choice(NAMES)
            return self.cmd('let', self.word(d, sc, n), self.arg(d, sc), self.arg(d, sc + [(n, 0)]))
        if x < 0.89:
            return self.define(d, sc)
        if x < 0.94:
            return self.cmd('eval', self.arg(d, sc))
        if x < 0.97:
            return self.plaincmd(d, sc)
        # wrong number of arguments
        n = r.choice(['head', 'tail', 'ifeq', 'let', 'define', 'eval', 'plain', 'error', 'ifneq'])
        return self.cmd(n, *[self.arg(d - 1, sc) for _ in range(r.choice([0, 1, 2, 3, 5]))])

    def call(self, d, sc):
        r = self.rng
        n, k = r.choice(sc)
        if not self.tame and r.random() < 0.04:
            k += r.choice([-1, 1])
        return self.cmd(n, *[self.arg(d - 1, sc) for _ in range(max(k, 0))])

    def define(self, d, sc):
        r = self.rng
        n = r.choice(NAMES)
        if r.random() < 0.25:
            # structural recursion over a string
            ps = ['x']
            hd = self.cmd('head', self.seq([self.cmd('x')]))
            rec = self.cmd(n, self.seq([self.cmd('tail', self.seq([self.cmd('x')]))]))
            body = r.choice([[rec, hd], [hd, hd, rec], [hd, self.plain('-'), rec], [rec],
                             [self.cmd('ifeq', self.seq([hd]), self.seq([self.plain('a')]),
                                       self.seq([self.plain('Z')]), self.seq([hd])), rec]])
            df = self.seq([self.cmd('ifeq', self.seq([self.cmd('x')]), self.seq([]), self.seq([]), self.seq(body))])
            if n in ('head', 'x', 'let'):
                n = 'rev'
                rec['n'] = 'rev'
        else:
            ps = r.sample(['x', 'y', 'z', 'a', n] if n not in ('x', 'y') else ['x', 'y', 'z', 'a'], r.choice([0, 1, 1, 2, 2, 3]))
            inner = [(m, k) for m, k in sc if m != n] + [(q, 0) for q in ps if q != n] * 2
            df = self.arg(d, inner)
        sep = r.choice([' ', ' ', ' ', '  ', '\n', ' \n'])
        p = self.seq([self.plain(sep.join(ps) + (' ' if r.random() < 0.1 else ''))])
        return self.cmd('define', self.word(d, sc, n), p, df, self.arg(d, sc + [(n, len(ps))] * 3))

    def plaincmd(self, d, sc):
        """@plain with a command that distributes over concatenation."""
        r = self.rng
        hd = self.cmd('head', self.seq([self.cmd('x')]))
        rec = self.cmd('pl', self.seq([self.cmd('tail', self.seq([self.cmd('x')]))]))
        body = r.choice([
            self.seq([self.cmd('x')]), self.seq([]),
            self.seq([self.cmd('ifeq', self.seq([self.cmd('x')]), self.seq([]), self.seq([]),
                               self.seq([hd, self.plain("'"), rec]))])])
        inner = self.cmd('plain', self.word(0, sc, 'pl'), self.arg(d, sc))
        return self.cmd('define', self.seq([self.plain('pl')]), self.seq([self.plain('x')]), body, self.seq([inner]))

    # ---- printing
    def put(self, w, m):
        r = self.rng
        if m['t'] == 'p':
            m['l'] = [0, 0]
            w.w(esc(m['s'], r))
        elif m['t'] == 's':
            for x in m['m']:
                self.put(w, x)
        else:
            w.w('@')
            m['l'] = w.loc()
            w.w(m['n'])
            for a in m['a']:
                flat = a['m']
                if flat and all(x["t"] == "p" for x in flat) and r.random() < 0.3 and bal(''.join(x['s'] for x in flat)):
                    for x in flat:
                        x['l'] = [0, 0]
                    w.w('{' + ''.join(x['s'] for x in flat) + '}')
                else:
                    w.w('[')
                    self.put(w, a)
                    w.w(']')

    def norm(self, m):
        """Adjacent plain pieces, and a command followed by text that would be read as its argument, are merged or split."""
        if m['t'] == 's':
            out = []
            for x in m['m']:
                x = self.norm(x)
                if x['t'] == 'p':
                    if out and out[-1]['t'] == 'c' and x['s'][:1] and (x['s'][0].isalnum() or x['s'][0] in '_{'):
                        x = dict(x, s='.' + x['s'])
                    if out and out[-1]['t'] == 'p':
                        s = out[-1]['s'] + x['s']
                        out[-1] = dict(t='p', s=s)
                        continue
                    if x['s'] == '':
                        continue   # no text at all: not a piece
                out.append(x)
            return dict(t='s', m=out)
        if m['t'] == 'c':
            return dict(m, a=[self.norm(a) for a in m['a']])
        return dict(m)

    def doc(self, depth=None):
        r = self.rng
        d = r.choice([2, 3, 4, 5]) if depth is None else depth
        self.tame = r.random() < 0.6
        while True:
            root = self.piece(d, [])
            if root['t'] == 'c':
                break
        root = self.norm(dict(t='s', m=[root]))
        # copy so that locations of shared sub-markup are separate
        import copy
        root = copy.deepcopy(root)
        root = unshare(root)
        w = W()
        self.put(w, root)
        w.w('\n')
        return root, w.text()


def unshare(m):
    if m['t'] == 'p':
        return dict(m)
    if m['t'] == 's':
        return dict(t='s', m=[unshare(x) for x in m['m']])
    return dict(m, a=[unshare(x) for x in m['a']])


def size(m):
    if m['t'] == 'p':
        return 1 + len(m['s'])
    if m['t'] == 's':
        return sum(map(size, m['m']))
    return 1 + sum(map(size, m['a']))


def corpus(seed, n, maxsize=250):
    rng = random.Random(seed)
    g = Gen(rng)
    out = []
    while len(out) < n:
        m, t = g.doc()
        if size(m) <= maxsize:
            out.append((m, t))
    return out
