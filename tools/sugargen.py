"""Texts for C21: programs that write the same few things in every notation the language has, texts laid out and quoted in
arbitrary ways, texts with small damage, and short strings of arbitrary tokens."""
import random
import fblegen

PRE = """@ Unit@ = *(); Unit@ Unit = Unit@();
@ Bool@ = +(Unit@ true, Unit@ false); Bool@ True = Bool@(true: Unit), Bool@ False = Bool@(false: Unit);
@ N@ = *(Bool@ a, Bool@ b);
@ E@ = +(Bool@ x, N@ y, Unit@ z);
@ L@ = +(C@ cons, Unit@ nil), @ C@ = *(Bool@ head, L@ tail);
@ Ch@ = +(Unit@ a, Unit@ b, Unit@ 'c d', Unit@ '#'), @ S@ = +(D@ cons, Unit@ nil), @ D@ = *(Ch@ head, S@ tail);
@ Z@ = +(Bool@ b, N@ n, E@ e, L@ l, S@ s, W@ w), @ W@ = *(Z@ p, Z@ q);
(L@) { L@; } list = (L@ l) { l; }, (S@) { S@; } str = (S@ s) { s; };
<@>@ P@ = <@ A@> { *(A@ fst, A@ snd); };
<@><@>@ Q@ = <@ A@> <@ B@> { *(A@ one, B@ two); };
<@, @>@ R@ = <@ A@, @ B@> { Q@<A@, B@>; };
"""


class Sugar:
    def __init__(self, r):
        self.r = r
        self.n = 0
        self.left = 0

    def fresh(self, b='x'):
        self.n += 1
        return '%s%d' % (b, self.n)

    # types: B N E L S, ('f', args, result)
    def ty(self, t):
        r = self.r
        if isinstance(t, str):
            if r.random() < .06 and t in 'B':
                return '@<%s>' % r.choice(['True', 'False', 'True.?(true: False, : True)'])
            return {'B': 'Bool@', 'N': 'N@', 'E': 'E@', 'L': 'L@', 'S': 'S@', 'PB': 'P@<Bool@>'}.get(t) or self.qty()
        args, res = t[1], t[2]
        k = r.randint(1, len(args))
        rest = ('f', args[k:], res) if k < len(args) else res
        a = ', '.join(self.ty(x) for x in args[:k])
        if isinstance(rest, tuple) and r.random() < .6:
            return '(%s) %s' % (a, self.ty(rest) if r.random() < .5 else '{ %s; }' % self.ty(rest))
        return '(%s) { %s; }' % (a, self.ty(rest))

    def qty(self):
        return self.r.choice(['Q@<Bool@, N@>', 'Q@<Bool@><N@>', 'R@<Bool@, N@>', 'R@<Bool@><N@>', 'Q@ < Bool@ > < N@ >'])

    def var(self, t, sc):
        c = [x for x, u in sc if u == t]
        if c and self.r.random() < .8:
            return c[-1] if self.r.random() < .5 else self.r.choice(c)
        return {'B': self.r.choice(['True', 'False'])}.get(t if isinstance(t, str) else '')

    def block(self, t, sc, d):
        return '{ %s }' % self.stmt(t, sc, d)

    def fn(self, t, sc, d):
        """A function of type t."""
        r = self.r
        args, res = t[1], t[2]
        names = [self.fresh() if r.random() < .8 else r.choice(['a', 'b', 'x']) for _ in args]
        if len(set(names)) < len(names):
            names = [self.fresh() for _ in args]
        k = r.randint(1, len(args))
        hd = '(%s)' % ', '.join('%s %s' % (self.ty(x), n) for x, n in zip(args[:k], names))
        sc = sc + list(zip(names[:k], args))
        if k < len(args):
            rest = self.fn(('f', args[k:], res), sc, d)
            return hd + ' ' + (rest if r.random() < .5 and rest[0] == '(' else '{ %s; }' % rest)
        if isinstance(res, tuple) and r.random() < .5:
            return hd + ' ' + self.fn(res, sc, d)
        return hd + ' ' + self.block(res, sc, d)

    def stmt(self, t, sc, d):
        """Statements up to the last ';'."""
        r = self.r
        self.left -= 1
        c = r.random()
        if d <= 0 or self.left < 0 or c < .3:
            return self.expr(t, sc, d) + ';'
        if c < .5:
            k = r.randint(1, 3)
            us = [r.choice(['B', 'B', 'N', 'L', 'E']) for _ in range(k)]
            xs = [self.fresh() if r.random() < .8 else 'xyab'[i] for i in range(k)]
            bs = []
            for u, x in zip(us, xs):
                a = self.r.choice([self.ty(u)] * 3 + ['%'])
                bs.append('%s %s = %s' % (a, x, self.typed(u, [v for v in sc if v[0] not in xs], d - 1, a == '%')))
            return ', '.join(bs) + '; ' + self.stmt(t, sc + list(zip(xs, us)), d - 1)
        if c < .6:
            # a kind binding
            x = self.fresh('T')
            how = r.random()
            if how < .5:
                return '@ %s@ = %s; %s' % (x, self.ty('B'), self.stmt(t, sc, d - 1).replace('Bool@', x + '@', 1))
            kd, e, use = r.choice([
                ('<@>@', '<@ A@> { *(A@ fst); }', '{ %s@<Bool@> p = @(%s); p.fst; }'),
                ('<@, @>@', '<@ A@, @ B@> { *(A@ fst, B@ g); }', '{ %s@<Bool@, Bool@> p = @(%s, g: False); p.fst; }'),
                ('<@><@>@', '<@ A@, @ B@> { *(A@ fst, B@ g); }', '{ %s@<Bool@><Bool@> p = @(%s, g: False); p.fst; }'),
                ('<<@>@>@', '<<@>@ F@> { F@<Bool@>; }', '{ %s@<P@> p = @(%s, snd: False); p.fst; }'),
                ('<<@>@, @>@', '<<@>@ F@> <@ B@> { F@<B@>; }', '{ %s@<P@, Bool@> p = @(%s, snd: False); p.fst; }')])
            return '%s %s@ = %s; %s b0 = { Bool@ fst = %s; %s; }; %s' % (kd, x, e, self.ty('B'), self.expr('B', sc, 0), use % (x, 'fst'),
                                                                         self.stmt(t, sc + [('b0', 'B')], d - 1))
        if c < .75:
            # binds
            k = r.randint(1, 3)
            us = [r.choice('BBN') for _ in range(k)]
            xs = [self.fresh() for _ in range(k)]
            f = ('f', (('f', tuple(us), t),), t)
            return '%s <- %s; %s' % (', '.join('%s %s' % (self.ty(u), x) for u, x in zip(us, xs)), self.expr(f, sc, d - 1),
                                     self.stmt(t, sc + list(zip(xs, us)), d - 1))
        # statement selects
        return '%s; %s' % (self.select(t, sc, d - 1, False), self.stmt(t, sc, d - 1))

    def typed(self, t, sc, d, explicit):
        """An expression of type t; explicit: one whose type needs no context."""
        if not explicit:
            return self.expr(t, sc, d)
        e = self.expr(t, sc, d)
        return e

    def select(self, t, sc, d, full):
        r = self.r
        e, fs = r.choice([('B', [('true', 'Unit@'), ('false', 'Unit@')]), ('B', [('true', 0), ('false', 0)]), ('E', [('x', 'B'), ('y', 'N'), ('z', 0)])])
        k = len(fs) if full and r.random() < .5 else r.randint(1, len(fs))
        ks = sorted(r.sample(range(len(fs)), k))
        out = ', '.join('%s: %s' % (fs[i][0], self.expr(t, sc, d - 1)) for i in ks)
        if full and (k < len(fs) or r.random() < .2):
            out += ', : ' + self.expr(t, sc, d - 1)
        return '%s.?(%s)' % (self.expr(e, sc, d - 1), out)

    def call(self, f, args):
        r = self.r
        out = f
        while args:
            k = r.randint(1, len(args))
            out += '(%s)' % ', '.join(args[:k])
            args = args[k:]
        return out

    def expr(self, t, sc, d):
        r = self.r
        self.left -= 1
        v = self.var(t, sc)
        if v and (d <= 0 or self.left < 0 or r.random() < .15):
            return v
        if isinstance(t, tuple):
            return self.fn(t, sc, d - 1)
        if d <= -3 and t in 'NELS':
            return {'N': 'N@(True, False)', 'E': 'E@(z: Unit)', 'L': 'list[]', 'S': 'str[]'}[t]
        c = r.random()
        if c < .1:
            return self.block(t, sc, d - 1)
        if c < .2 and d > 0:
            return self.select(t, sc, d, True)
        if c < .35 and d > 0:
            k = r.randint(1, 3)
            us = tuple(r.choice('BBBNE') for _ in range(k))
            return self.call(self.fn(('f', us, t), sc, d - 1), [self.expr(u, sc, d - 1) for u in us])
        if c < .4 and d > 0:
            # a polymorphic function
            a = self.expr(t, sc, d - 1)
            b = self.expr('B', sc, d - 1)
            if r.random() < .4:
                # type arguments left out
                f = r.choice(['<@ A@> (A@ u) { (Bool@ _v) { u; }; }', '<@ A@> (A@ u, Bool@ _v) { u; }', '<@ A@> { (A@ u, Bool@ _v) { u; }; }'])
                ts = r.choice(['', '<%s>' % self.ty(t)])
                if r.random() < .05:
                    f = '<@ A@, @ B@> (A@ u, B@ _v) { u; }'      # cannot be inferred
            else:
                f = r.choice(['<@ A@, @ B@> (A@ u, B@ _v) { u; }', '<@ A@> <@ B@> (A@ u) (B@ _v) { u; }', '<@ A@> { <@ B@> { (A@ u, B@ _v) { u; }; }; }',
                              '<@ A@, @ B@> { (A@ u) { (B@ _v) { u; }; }; }'])
                ts = r.choice(['<%s, Bool@>', '<%s><Bool@>']) % self.ty(t)
            return self.call('%s%s' % (f, ts), [a, b])
        if t == 'B':
            k = r.choice('BNN')
            if k == 'B' or d <= 0:
                return r.choice(['True', 'False', 'Bool@(true: Unit)', '@<True>(false: Unit@())', '{ Bool@; }(true: @())'
                                 if False else 'Bool@(false: @<Unit>())'])
            if r.random() < .4:
                a = self.expr('B', sc, d - 1), self.expr('N', sc, d - 1)
                q = r.choice(['%s(%s, %s)', '{ %s q = @(one: %s, two: %s); q; }', '{ Bool@ one = %s; N@ two = %s; @(one, two); }'])
                if q[0] == '%':
                    q = q % (self.qty(), *a)
                elif q.startswith('{ %s'):
                    q = q % (self.qty(), *a)
                else:
                    q = q % a
                return q + r.choice(['.one', '.two.a', '.two.b'])
            return self.expr('N', sc, d - 1) + r.choice(['.a', '.b'])
        if t == 'N':
            k = r.randrange(6)
            a, b = self.expr('B', sc, d - 1), self.expr('B', sc, d - 1)
            own = {x for x, u in sc if u == 'B'} if all(u == 'B' for x, u in sc if x in 'ab') else set()
            if k == 0 and {'a', 'b'} <= own:
                return r.choice(['{ N@ n = @(a, b); n; }', '@(a, b)'])
            if k == 1 and 'a' in own:
                return '@(a, b: %s)' % b
            if k == 2:
                return '@(a: %s, b: %s)' % (a, b)
            if k == 3 and d > 0:
                e = self.expr('N', sc, d - 1)
                return '%s.@(%s)' % (e, r.choice(['a: %s' % a, 'b: %s' % b, 'a: %s, b: %s' % (a, b)] + (['a'] if 'a' in own else []) + (['b'] if 'b' in own else [])))
            return 'N@(%s, %s)' % (a, b) if r.random() < .8 else '{ N@(%s, %s); }' % (a, b)
        if t == 'E':
            k = r.choice('xyz')
            if k == 'x':
                return 'E@(x: %s)' % self.expr('B', sc, d - 1)
            if k == 'y':
                return 'E@(y: %s)' % self.expr('N', sc, d - 1)
            return 'E@(z: %s)' % r.choice(['Unit', 'Unit@()'])
        if t == 'L':
            k = r.randrange(4)
            if k == 0:
                return 'L@(nil: Unit)'
            if k == 1:
                return 'L@(cons: %s)' % r.choice(['C@(%s, %s)', '@(head: %s, tail: %s)']) % (self.expr('B', sc, d - 1), self.expr('L', sc, d - 1))
            f = 'list' if r.random() < .6 else '(L@ l) { l; }'
            return '%s[%s]' % (f, ', '.join(self.expr('B', sc, d - 1) for _ in range(r.choice([0, 1, 2, 3, 5]))))
        if t == 'S':
            k = r.randrange(5)
            if k < 3:
                return r.choice(['str', '(S@ s) { s; }']) + r.choice(['|', ' | ']) + r.choice(['a', 'b', 'ab', 'bbaab', "'ab'", "''", "'#'", "'a#b#'"])
            return 'str[%s]' % ', '.join(r.choice(['Ch@(a: Unit)', 'Ch@(b: Unit)', "Ch@('c d': Unit)", "Ch@('#': Unit@())"]) for _ in range(r.choice([0, 1, 3])))
        raise ValueError(t)


def chars(s):
    """The tokens of a text without comments."""
    out, i = [], 0
    while i < len(s):
        c = s[i]
        if c in ' \t\r\n\f':
            i += 1
        elif c == "'":
            j = i + 1
            while True:
                if s[j] == "'":
                    if s[j + 1:j + 2] != "'":
                        break
                    j += 1
                j += 1
            out.append(s[i:j + 1])
            i = j + 1
        elif c in fblegen.PUNCT:
            out.append(c)
            i += 1
        else:
            j = i
            while j < len(s) and s[j] not in fblegen.PUNCT and s[j] not in " \t\r\n\f'#":
                j += 1
            out.append(s[i:j])
            i = j
    return out


NOTES = ['# a note\n', '#\n', "# it's ; ) {\n", '# ## # x = y;\n', '#\t\r\n']


def lay(toks, r, dense=.5):
    """A text of the tokens: arbitrary white space, comments and quotes."""
    out, prev = [], ''
    q = r.choice([0, .2, .9])
    for t in toks:
        word = t[0] not in fblegen.PUNCT
        if word and t[0] != "'" and r.random() < q:
            t = "'" + t + "'"
        sp = ''
        while r.random() < dense:
            sp += r.choice([' ', ' ', '\n', '\t', '\r\n', '\f', '\r', '  '] + NOTES)
        if prev and word and not sp and prev[0] not in fblegen.PUNCT and not (prev[-1] == "'") ^ (t[0] == "'"):
            sp = ' '
        out.append(sp + t)
        prev = t
    tail = r.choice(['', '\n', '# the end', '\n\n', ' '])
    return ''.join(out) + tail


def fill(toks):
    """A text of the tokens with short lines."""
    out, n, prev = [], 0, ''
    for t in toks:
        if prev and t[0] not in fblegen.PUNCT and prev[0] not in fblegen.PUNCT:
            t = ' ' + t
        prev = t.strip()
        if n > 90:
            out.append('\n')
            n = 0
        out.append(t)
        n += len(t)
    return ''.join(out) + '\n'


ODD = ["''''", "'a''b'", "'''a'", "'a'''", "''''''", "'it''s'", "'a b'", "' '", "' a'", "'a '", "'# x'", "';'", "'='", "'@'", "'%'", "'<-'",
       "'->'", "'|'", "':'", "'('", "')'", "'}'", "'\n'", "'x\ny'", "'\t'", "'\\'", "'\\n'", '"', "'\"'", "'/'", "'.'", "'_'", '__', '1', '0x', 'é', "'ü'", "'a@'", "'@a'", "'%s'",
       "'%n'", "'-'", "','", "'['", "'A@<B>'", "'**/'", "'a''''b'", "'$'", "'\r'", 'A1', 'aA', 'x' * 70, "''"]


def rename(toks, r, k):
    """The tokens with some names changed to odd ones, everywhere."""
    keep = {t for p, t in zip(toks, toks[1:]) if p == '|'} | {'a', 'b', "'a'", "'b'", "'c d'", "'#'"}
    pool = [w for w in ODD if w not in toks and "'" + w + "'" not in toks]
    r.shuffle(pool)
    m = {}
    for t in sorted(set(toks)):
        if t[0] not in fblegen.PUNCT and t[0] != "'" and t not in keep and pool and r.random() < k:
            m[t] = pool.pop()
    return [t if i and toks[i - 1] == '|' else m.get(t, t) for i, t in enumerate(toks)]


def sweet(pid, seed):
    """A program of values written in every notation."""
    r = random.Random(seed)
    g = Sugar(r)
    g.left = 140
    out, names = [PRE], []
    sc = []
    for i in range(r.randint(3, 7)):
        t = r.choice('BNELS')
        e = g.expr(t, sc, r.choice([2, 3, 4]))
        x = 'v%d' % i
        out.append('%s %s = %s;\n' % (g.ty(t), x, e))
        names.append('Z@(%s: %s)' % (dict(B='b', N='n', E='e', L='l', S='s')[t], x))
        if t == 'B' and r.random() < .2:
            out.append('Bool@ %s = %s;\n' % (y := r.choice('ab'), x))
            sc = [v for v in sc if v[0] != y] + [(y, 'B')]
        sc = sc + [(x, t)]
    e = names[0]
    for n in names[1:]:
        e = 'Z@(w: W@(%s, %s))' % (e, n)
    out.append(e + ';\n')
    toks = chars(''.join(out))
    if r.random() < .4:
        toks = rename(toks, r, r.choice([.1, .5]))
    k = r.randrange(3)
    text = fill(toks) if k == 0 else lay(toks, r, .12 if k == 1 else .45)
    return dict(id=pid, fuel=600, main=['p%d' % pid], fs=[(['p%d' % pid], text)])


SMALL = """@ U@ = *(); U@ u = U@();
@ E@ = +(U@ a, U@ b); E@ e = E@(a: u);
(U@) { U@; } f = (U@ x) { x; };
"""
TOKS = list('(){}[];,:?=.<>+*-@|%/') + ['-!$~^&'[0], '!', '$', '~', '^', '&', '^', "''", 'a', 'u', 'e', 'f', 'x', 'U', 'E', "'a'", '#\n']
STARTS = ['u;', 'f(u);', 'e.?(a: u, b: u);', 'e.?(a: u, : u);', 'e.?(a: u, : u); u;', 'e.?(a: u, b: u); u;', 'e.a; u;', 'f(e.?(a: u)); u;', '{ e.?(a: u); }; u;', "@('''a': u).'''a';", "@('a''': u).'a''';",
           'e.?(a: u); u;', 'U@ x = u; x;', '@ T@ = U@; T@();', '% x = u; x;',
          'U@ x <- (((U@){U@;} k) { k(u); }); x;', '(U@ x) { x; };', '<@ A@> { u; };', '<@ A@, @ B@> (A@ x, B@ y) { x; };', '@<u>();', 'U@ x = u, U@ y = u; x;',
          '@(x: u, y: u);', '@(u, e);', 'f[u];', 'f|a;', '*(U@ a, E@ b);', '+(U@ a);', '<@>@ P@ = <@ A@> { A@; }; P@<U@>();', '%(/A/B%);', '/A/B%;',
          '%();', 'e.a;', 'e.@(a: u);', 'u.%;', 'f.<U@>(u);', 'E@(a: u);', '(U@, E@) { U@; };', '<@><@>@ P@ = <@ A@> <@ B@> { A@; }; u;',
          '<<@>@>% g = <<@>@ A@> { u; }; u;', 'U@ x, U@ y <- f; x;', 'e.?(a: u); e.?(b: u); u;', '{ u; };', '<@>% i = <@ A@> (A@ x) { x; }; i(u);']


def short(pid, seed):
    """A small text with a short string of arbitrary tokens, or one of the notations with a few tokens changed."""
    r = random.Random(seed)
    if r.random() < .35:
        ts = [r.choice(TOKS) for _ in range(r.randint(1, 8))] + r.choice([[], [';']])
    else:
        ts = chars(r.choice(STARTS))
        if r.random() < .15:
            ts = ts + chars(r.choice(STARTS))
        for _ in range(r.choice([0, 1, 1, 1, 2])):
            k = r.randrange(len(ts))
            c = r.randrange(4)
            if c == 0:
                del ts[k]
            elif c == 1:
                ts.insert(k, r.choice(TOKS))
            elif c == 2:
                ts[k] = r.choice(TOKS)
            else:
                j = r.randrange(len(ts))
                ts[k], ts[j] = ts[j], ts[k]
            if not ts:
                ts = [';']
    body = lay([t for t in ts if t != '#\n'], r, .1) if r.random() < .3 else ' '.join(ts) + r.choice(['', '\n'])
    pre = SMALL if r.random() < .85 else ''
    return dict(id=pid, fuel=100, main=['p%d' % pid], fs=[(['p%d' % pid], pre + body)])


BYTES = list("'''##;:,.(){}[]<>|%/@?=-+*!$~^&\n\n\t \\\"") + ['\r', '\f', '\0', '\x01', '\x7f', '\x80', '\xff', '\xc3', 'a', 'Z', '0', '_']


def damaged(pid, seed):
    """A text of values with a few characters changed."""
    r = random.Random(seed)
    p = sweet(pid, seed + 1) if r.random() < .5 else short(pid, seed + 1)
    text = p['fs'][0][1]
    for _ in range(r.choice([1, 1, 2])):
        k = r.randrange(len(text) + 1)
        c = r.randrange(4)
        if c == 0:
            text = text[:k] + text[k + 1:]
        elif c == 1:
            text = text[:k] + r.choice(BYTES) + text[k:]
        elif c == 2:
            text = text[:k] + r.choice(BYTES) + text[k + 1:]
        else:
            text = text[:k] + text[k:k + 1] + text[k:]
    if "'" in text:
        text = text.replace('\0', '\1')       # what a quoted word with the character 0 is, is left open
    p['fs'] = [(p['fs'][0][0], text)]
    return p


if __name__ == '__main__':
    import sys
    print(sweet(1, int(sys.argv[1]))['fs'][0][1])
    print(short(1, int(sys.argv[1]))['fs'][0][1])


ALPHABETS = [['a', 'ab', 'b'], ['a', 'aa', 'aaa'], ['a', 'ab', 'abc', 'c', 'bc'], ['0', '1', '01', '10', '00'], ['x', ' ', 'x ', ' x'], ["'", "''", 'q', "q'"],
             ['\n', 'a', 'a\n', '\n\n'], ['ab', 'ba', 'a', 'bab'], ['é', 'e', '\xa9', 'éé'], ['#', '##', '@', '#@'], ['Ab', 'A', 'bA', 'b']]


def letters(pid, seed):
    """A list of letters, some of which start others, written as a word; and lists in brackets."""
    r = random.Random(seed)
    q = lambda w: "'%s'" % w.replace("'", "''") if r.random() < .5 or not w.isascii() or not w.isalnum() else w
    ls = list(r.choice(ALPHABETS))
    r.shuffle(ls)
    if r.random() < .3:
        ls = ls[:-1]
    odd = r.choice(ls) if r.random() < .12 else None
    one = r.choice(ls)
    words = []
    for _ in range(r.randint(1, 3)):
        p = r.random()
        w = ''.join((r.choice(ls) if r.random() > p else one) for _ in range(r.choice([0, 1, 2, 3, 4, 6, 9, 40])))
        words.append(w if r.random() < .8 else w[:-1] if r.random() < .5 else w + r.choice('abz \n'))
    nm = r.sample(['cons', 'nil'], 2)
    fs = r.sample(['head', 'tail'], 2)
    out = ["@ U@ = *(); @ V@ = *(U@ u);\n@ A@ = +(%s);\n" % ', '.join('%s %s' % ('V@' if l == odd else 'U@', q(l)) for l in ls),
           "@ S@ = +(C@ %s, U@ %s), @ C@ = *(A@ %s, S@ %s);\n" % (nm[0], nm[1], fs[0], fs[1]),
           "(S@) { S@; } s = (S@ x) { x; };\n",
           "@ T@ = +(D@ more, U@ end), @ D@ = *(S@ item, T@ then);\n(T@) { T@; } l = (T@ x) { x; };\n"]
    items = [r.choice(['s|%s', 's | %s', '{ s|%s; }']) % q(w) for w in words]
    for i in range(r.choice([0, 0, 1, 5, 70])):
        items.append(r.choice(items[:6]))
    if r.random() < .5:
        r.shuffle(items)
    if r.random() < .3:
        items = ['x'] * (len(items) - 1) + ['x'] if len(items) > 1 else items
        out.append('S@ x = s|%s;\n' % q(words[0]))
    out.append('l[%s];\n' % ', '.join(items))
    return dict(id=pid, fuel=300, main=['p%d' % pid], fs=[(['p%d' % pid], ''.join(out))])
