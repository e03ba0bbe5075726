"""C16: histories of the core collections, checked against Coll.tla."""
import itertools, json, os, random, sys
import calc, vt

MAPS, SETS, LISTS, FIFOS = '@0 .', '@1 .', '@2 .', '@3 .'
LIST = {n: k for k, n in enumerate('append last init reverse map concat join eq contains split ord take drop length get sortup sortdown '
                                   'sorthigh cons foreach'.split())}


def E(x):
    return 'g6:%d' % x


def L(xs):
    return ' '.join(['l%d' % len(xs)] + [E(x) for x in xs])


class History:
    """Operations, and the lines that carry them out."""
    def __init__(self, name):
        self.id, self.ops, self.lines, self.n = name, [], [], 0

    def _op(self, o, line, d=0, a=(), k=0, v=(), n=0):
        self.ops.append(dict(o=o, d=d, a=list(a), k=k, v=list(v), n=n))
        self.lines.append(line)

    def make(self, o, expr, **kw):
        self._op(o, '= ' + expr, **kw)
        self.n += 1
        return self.n

    def look(self, o, expr, shape, **kw):
        self._op(o, '? %s %s' % (expr, shape), **kw)

    # version k is variable k - 1
    @staticmethod
    def v(k):
        return '$%d' % (k - 1)

    # maps
    def mops(self, d, k):
        return '@%d @%d %s' % (k, d, MAPS)

    def mEmpty(self, d):
        return self.make('mEmpty', '@2 ' + MAPS, d=d)

    def mInsert(self, d, a, k, v):
        return self.make('mInsert', '( %s %s %s %s )' % (self.mops(d, 2), self.v(a), E(k), L(v)), a=[a], k=k, v=v)

    def mWith(self, d, a, k, v):
        return self.make('mWith', '( %s %s %s %s )' % (self.mops(d, 3), self.v(a), E(k), L(v)), a=[a], k=k, v=v)

    def mDelete(self, d, a, k):
        return self.make('mDelete', '( %s %s %s )' % (self.mops(d, 4), self.v(a), E(k)), a=[a], k=k)

    def mUnion(self, d, a, b):
        return self.make('mUnion', '( %s %s %s )' % (self.mops(d, 5), self.v(a), self.v(b)), a=[a, b])

    def mIsEmpty(self, d, a):
        self.look('mIsEmpty', '( %s %s )' % (self.mops(d, 0), self.v(a)), 'e', a=[a])

    def mLookup(self, d, a, k):
        self.look('mLookup', '( %s %s %s )' % (self.mops(d, 1), self.v(a), E(k)), 'M(L(g6))', a=[a], k=k)

    def mEntries(self, d, a):
        self.look('mEntries', '( @3 %s %s )' % (MAPS, self.v(a)), 'L(S(g6,L(g6)))', a=[a])

    def mEq(self, a, b):
        self.look('mEq', '( @4 %s %s %s )' % (MAPS, self.v(a), self.v(b)), 'e', a=[a, b])

    # sets
    def sops(self, d, k):
        return '@%d @%d %s' % (k, d, SETS)

    def sEmpty(self, d):
        return self.make('sEmpty', '@2 ' + SETS, d=d)

    def sInsert(self, d, a, k):
        return self.make('sInsert', '( %s %s %s )' % (self.sops(d, 2), self.v(a), E(k)), a=[a], k=k)

    def sDelete(self, d, a, k):
        return self.make('sDelete', '( %s %s %s )' % (self.sops(d, 3), self.v(a), E(k)), a=[a], k=k)

    def sIsEmpty(self, d, a):
        self.look('sIsEmpty', '( %s %s )' % (self.sops(d, 0), self.v(a)), 'e', a=[a])

    def sContains(self, d, a, k):
        self.look('sContains', '( %s %s %s )' % (self.sops(d, 1), self.v(a), E(k)), 'e', a=[a], k=k)

    def sElements(self, d, a):
        self.look('sElements', '( @3 %s %s )' % (SETS, self.v(a)), 'L(g6)', a=[a])

    def sEq(self, a, b):
        self.look('sEq', '( @4 %s %s %s )' % (SETS, self.v(a), self.v(b)), 'e', a=[a, b])

    # lists
    def lop(self, name, args):
        return '( @%d %s %s )' % (LIST[name], LISTS, args)


def maps(rnd, name, size, n):
    h = History(name)
    d = rnd.randrange(2)
    keys = rnd.sample(range(64), size)
    now = [h.mEmpty(d)]
    live = {now[0]: {}}
    style = rnd.choice(['mixed', 'rising', 'falling', 'churn', 'fork'])
    cur = now[0]
    ks = sorted(keys, reverse=style == 'falling')
    pos = 0
    for _ in range(n):
        r = rnd.random()
        c = live[cur]
        if style in ('rising', 'falling') and pos < len(ks) and r < 0.8:
            k = ks[pos]
            pos += 1
            new = h.mInsert(d, cur, k, [rnd.randrange(64)])
            live[new] = {**c, k: 1}
        elif r < (0.45 if style != 'churn' or len(c) < size * 2 // 3 else 0.25):
            k = rnd.choice(keys)
            new = rnd.choice([h.mInsert, h.mInsert, h.mWith])(d, cur, k, [rnd.randrange(64) for _ in range(rnd.choice([1, 1, 0, 2]))])
            live[new] = {**c, k: 1}
        elif r < 0.8:
            k = rnd.choice(sorted(c)) if c and rnd.random() < 0.9 else rnd.choice(keys)
            new = h.mDelete(d, cur, k)
            live[new] = {x: 1 for x in c if x != k}
        elif r < 0.84 and len(live) > 3:
            b = rnd.choice(sorted(live))
            new = h.mUnion(d, cur, b)
            live[new] = {**c, **live[b]}
        elif r < 0.94:
            h.mLookup(d, cur, rnd.choice(sorted(c)) if c and rnd.random() < 0.6 else rnd.choice(keys))
            continue
        elif r < 0.96:
            h.mIsEmpty(d, cur)
            continue
        else:
            h.mEq(cur, rnd.choice(sorted(live)))
            continue
        cur = new
        if rnd.random() < (0.3 if style == 'fork' else 0.05):
            cur = rnd.choice(sorted(live))
    # what every version holds, at the end
    for a in rnd.sample(sorted(live), min(len(live), 25)) + [cur]:
        h.mEntries(d, a)
    for k in keys:
        h.mLookup(d, cur, k)
    # the same contents reached another way
    b = h.mEmpty(d)
    order = sorted(live[cur])
    rnd.shuffle(order)
    if all(True for _ in order):
        for k in order[:12]:
            b = h.mInsert(d, b, k, [k])
        x = h.mEmpty(d)
        for k in sorted(order[:12]):
            x = h.mInsert(d, x, k, [k])
        h.mEq(b, x)
        h.mEq(x, b)
        h.mIsEmpty(d, x)
    return h


def shapes(name, perm, d, pairs, rnd):
    """Every tree an insertion order makes, then every deletion from it, and deletions after it."""
    h = History(name)
    a = h.mEmpty(d)
    for k in perm:
        a = h.mInsert(d, a, k, [k])
    h.mEntries(d, a)
    for k in perm:
        b = h.mDelete(d, a, k)
        h.mEntries(d, b)
        if pairs:
            for k2 in perm:
                if k2 != k:
                    h.mEntries(d, h.mDelete(d, b, k2))
    rest = list(perm)
    rnd.shuffle(rest)
    b = a
    for k in rest:
        b = h.mDelete(d, b, k)
        h.mEntries(d, b)
    h.mEntries(d, a)
    return h


def sets(rnd, name, size, n):
    h = History(name)
    d = rnd.randrange(2)
    keys = rnd.sample(range(64), size)
    cur = h.sEmpty(d)
    made = [cur]
    for _ in range(n):
        r = rnd.random()
        k = rnd.choice(keys)
        if r < 0.45:
            cur = h.sInsert(d, cur, k)
        elif r < 0.75:
            cur = h.sDelete(d, cur, k)
        elif r < 0.92:
            h.sContains(d, cur, k)
            continue
        elif r < 0.95:
            h.sIsEmpty(d, cur)
            continue
        else:
            h.sEq(cur, rnd.choice(made))
            continue
        made.append(cur)
        if rnd.random() < 0.08:
            cur = rnd.choice(made)
    for a in rnd.sample(made, min(len(made), 15)) + [cur]:
        h.sElements(d, a)
    return h


def lists(rnd, name, n):
    h = History(name)
    size = {}
    span = rnd.choice([2, 4, 8, 64])

    def elem():
        return rnd.randrange(span) * (64 // span) + (rnd.randrange(64 // span) if rnd.random() < 0.3 else 0)

    def fresh():
        v = [elem() for _ in range(rnd.choice([0, 0, 1, 1, 2, 3, 5, 8, 13, 20]))]
        if v and rnd.random() < 0.3:
            v[rnd.randrange(len(v))] |= 3
        a = h.make('list', L(v), v=v)
        size[a] = len(v)
        return a
    for _ in range(3):
        fresh()
    for _ in range(n):
        a, b = rnd.choice(sorted(size)), rnd.choice(sorted(size))
        o = rnd.choice('list cons append init reverse map foreach concat join take drop last eq contains split ord length get sort see'.split())
        v = h.v
        if o == 'list':
            fresh()
        elif o == 'cons':
            k = elem()
            size[h.make('cons', h.lop('cons', E(k) + ' ' + v(a)), a=[a], k=k)] = size[a] + 1
        elif o == 'append':
            if size[a] + size[b] < 60:
                size[h.make('append', h.lop('append', v(a) + ' ' + v(b)), a=[a, b])] = size[a] + size[b]
        elif o in ('init', 'reverse', 'map'):
            size[h.make(o, h.lop(o, v(a)), a=[a])] = max(0, size[a] - 1) if o == 'init' else size[a]
        elif o == 'foreach':
            if size[a] < 30:
                size[h.make(o, h.lop(o, v(a)), a=[a])] = 2 * size[a]
        elif o in ('concat', 'join'):
            xs = [rnd.choice(sorted(size)) for _ in range(rnd.randrange(5))]
            if sum(size[x] for x in xs) + 5 * size[a] < 90:
                args = ' '.join(['l%d' % len(xs)] + [v(x) for x in xs])
                if o == 'concat':
                    size[h.make(o, h.lop(o, args), a=xs)] = sum(size[x] for x in xs)
                else:
                    size[h.make(o, h.lop(o, args + ' ' + v(a)), a=[a] + xs)] = sum(size[x] for x in xs) + max(0, len(xs) - 1) * size[a]
        elif o in ('take', 'drop'):
            k = rnd.choice([-1, 0, 1, 2, size[a] - 1, size[a], size[a] + 1, rnd.randrange(30)])
            got = min(max(k, 0), size[a])
            size[h.make(o, h.lop(o, 'i%d %s' % (k, v(a))), a=[a], n=k)] = got if o == 'take' else size[a] - got
        elif o == 'last':
            if size[a]:
                h.look(o, h.lop(o, v(a)), 'g6', a=[a])
        elif o in ('eq', 'ord'):
            if rnd.random() < 0.3:
                b = h.make('append', h.lop('append', v(a) + ' ' + v(b)), a=[a, b])
                size[b] = 99
            h.look(o, h.lop(o, v(a) + ' ' + v(b)), 'e', a=[a, b])
            size.pop(b) if size[b] == 99 else 0
        elif o == 'contains':
            k = elem()
            h.look(o, h.lop(o, v(a) + ' ' + E(k)), 'e', a=[a], k=k)
        elif o == 'split':
            h.look(o, h.lop(o, v(a)), 'L(L(g6))', a=[a])
        elif o == 'length':
            h.look(o, h.lop(o, v(a)), 'n', a=[a])
        elif o == 'get':
            if size[a]:
                k = rnd.randrange(size[a])
                h.look(o, h.lop(o, v(a) + ' i%d' % k), 'g6', a=[a], n=k)
        elif o == 'sort':
            k = rnd.randrange(3)
            h.look('sort', h.lop(['sortup', 'sortdown', 'sorthigh'][k], v(a)), 'L(g6)', a=[a], n=k)
        else:
            h.look('see', v(a), 'L(g6)', a=[a])
    for a in sorted(size):
        h.look('see', h.v(a), 'L(g6)', a=[a])
    return h


def fifos(rnd, name, n):
    h = History(name)
    cur = h.make('fEmpty', '@0 ' + FIFOS)
    made = [cur]
    p = rnd.choice([0.35, 0.5, 0.7])
    for _ in range(n):
        r = rnd.random()
        if r < p:
            k = rnd.randrange(64)
            cur = h.make('fPut', '( @1 %s %s %s )' % (FIFOS, E(k), h.v(cur)), a=[cur], k=k)
        else:
            if rnd.random() < 0.7:
                h.look('fFirst', '( @3 %s %s )' % (FIFOS, h.v(cur)), 'M(g6)', a=[cur])
            cur = h.make('fNext', '( @2 %s %s )' % (FIFOS, h.v(cur)), a=[cur])
        made.append(cur)
        if rnd.random() < 0.06:
            cur = rnd.choice(made)
        h.look('fFirst', '( @3 %s %s )' % (FIFOS, h.v(cur)), 'M(g6)', a=[cur])
    return h


def histories(seed, thorough):
    rnd = random.Random(seed * 1009 + 16)
    k = 12 if thorough else 1
    hs = []
    for i in range(40 * k):
        hs.append(maps(rnd, 'm%d' % i, rnd.choice([6, 12, 20, 40, 64]), rnd.choice([40, 90, 160])))
    perms = list(itertools.permutations(range(6)))
    for i, p in enumerate(perms):
        if True:
            hs.append(shapes('p%d' % i, p, i % 2, True, rnd))
    perms = list(itertools.permutations(range(7)))
    for i, p in enumerate(perms):
        if thorough or i % 12 == seed % 12:
            hs.append(shapes('q%d' % i, p, i % 2, False, rnd))
    for i in range(40 * k):
        n = rnd.choice([10, 14, 20, 30])
        hs.append(shapes('r%d' % i, rnd.sample(range(64), n), i % 2, False, rnd))
    for i in range(25 * k):
        hs.append(sets(rnd, 's%d' % i, rnd.choice([4, 8, 20]), 100))
    for i in range(80 * k):
        hs.append(lists(rnd, 'l%d' % i, 60))
    for i in range(25 * k):
        hs.append(fifos(rnd, 'f%d' % i, 60))
    return hs


def judge(c, exe, hs):
    res = calc.run(c, exe, '/Verif/Coll%', [(h.id, h.lines) for h in hs])
    hs = [h for h in hs if h.id in res]
    f = os.path.join(c.scratch, 'coll.ndjson')
    with open(f, 'w') as o:
        for h in hs:
            end, got = res[h.id]
            ops = []
            for j, op in enumerate(h.ops):
                if j >= len(got):
                    break
                ops.append(dict(op, j=j + 1, t='A' if got[j] is None else 'V', r=0 if got[j] is True or got[j] is None else got[j]))
            o.write(json.dumps(dict(id=h.id, ops=ops, end='ok' if end == 'ok' and len(ops) == len(h.ops) else 'cut')) + '\n')
    r = vt.tlc('CollTrace', 'CollTrace.cfg', env={'TRACE': f}, timeout=2500 if c.thorough else 600)
    c.add_tlc(r)
    if len(r.tag('OUT')) != len(hs):
        raise vt.CheckError('histories not judged: %d of %d' % (len(r.tag('OUT')), len(hs)))
    return res, {b['id']: b['at'] for b in r.tag('BAD')}


def body(c):
    exe = calc.build()
    hs = histories(c.seed, c.thorough)
    by = {h.id: h for h in hs}
    if len(by) != len(hs):
        raise vt.CheckError('names')
    res, bad = judge(c, exe, hs)
    if bad:
        res, bad = judge(c, exe, [by[i] for i in sorted(bad)[:6]])
    for i, at in sorted(bad.items()):
        h = by[i]
        end, got = res[i]
        what = 'history %s, operation %d%s: %s' % (i, at or len(got) + 1, '' if end == 'ok' else ' (%s)' % end,
                                                  h.ops[at - 1]['o'] if at else 'the computation ended early')
        replay = 'module /Verif/Coll%% (harness/fble), harness/valcalc.c, job:\nJ %s\n%s\n\nresults:\n%s\n' % (
            i, '\n'.join(h.lines), '\n'.join(map(str, got)))
        c.violation(what, replay)
    c.cov['histories'] = len(hs)
    c.cov['traces_validated_against_impl'] = len(hs)
    c.cov['samples'] = sum(len(h.ops) for h in hs)
    ops = {}
    for h in hs:
        for op in h.ops:
            ops[op['o']] = ops.get(op['o'], 0) + 1
    c.cov['operations'] = ops
    if min(ops.values()) < 20:
        raise vt.CheckError('an operation is hardly used: %s' % ops)
    mc = vt.tlc('CollMC', 'CollMCThorough.cfg' if c.thorough else 'CollMC.cfg', timeout=1500)
    c.add_tlc(mc)


if __name__ == '__main__':
    sys.exit(vt.main('C16', body))
