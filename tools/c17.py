"""C17: the core integers, digits, characters and strings compute exactly, checked against Ints.tla."""
import json, os, random, sys
import calc, vt

I, S, C, B, G = '@0 .', '@1 .', '@2 .', '@3 .', '@4 .'
INTS = {n: k for k, n in enumerate('add sub mul neg abs incr decr exp2 eq lt le gt ge iszero max min ord div sqrt read show lit lsd range countup countdown'.split())}
STRS = {n: k for k, n in enumerate('seq starts contains sord sshow escaped strs join lines str'.split())}
CHARS = {n: k for k, n in enumerate('cord chr ceq ccmp cshow upper lower alpha digit alnum space newline'.split())}
BITS = {n: k for k, n in enumerate('hex showbits showhex eqbit crc lfsr shift shiftint polynomials'.split())}
LOGIC = {n: k for k, n in enumerate('and or not beq bord'.split())}
SHAPE = dict(add='b', sub='b', mul='b', neg='b', abs='b', incr='b', decr='b', exp2='b', eq='e', lt='e', le='e', gt='e', ge='e', iszero='e', max='b', min='b', ord='e',
             div='S(b,b)', sqrt='S(b,b)', read='b', show='h', lit='b', lsd='e', range='L(b)', countup='L(b)', countdown='L(b)',
             seq='e', starts='e', contains='e', sord='e', sshow='h', escaped='h', strs='h', join='h', lines='h',
             cord='b', chr='c', ceq='e', ccmp='e', cshow='h', hex='L(e)', showbits='h', showhex='h', eqbit='e', crc='L(e)',
             lfsr='S(L(e),L(e))', shift='S(S(L(e),L(e)),e)', shiftint='S(S(L(e),L(e)),b)')
CODES = [9, 10] + list(range(32, 127))


def limbs(x):
    s = (x > 0) - (x < 0)
    x, m = abs(x), []
    while x:
        m.append(x % 4096)
        x //= 4096
    return dict(s=s, m=m)


def bits(x):
    """The words for integer x."""
    if x == 0:
        return 'b'
    return 'b' + ('-' if x < 0 else '+') + bin(abs(x))[:1:-1]


def back(v):
    """What the harness prints, with integers as the specification has them."""
    if isinstance(v, list):
        return [back(x) for x in v]
    if isinstance(v, str):
        if v[:1] == 'i':
            return limbs(int(v[1:]))
        return limbs(int(v[:0:-1], 2) * (-1 if v[0] == '-' else 1)) if v else limbs(0)
    return v


def text(codes):
    return 'h' + ''.join('%02x' % c for c in codes)


def enums(xs):
    return ' '.join(['l%d' % len(xs)] + ['e%d' % x for x in xs])


class Job:
    def __init__(self, name):
        self.id, self.ops, self.lines = name, [], []

    def add(self, o, line, a=(), s=(), k=()):
        self.ops.append(dict(o=o, a=[limbs(x) for x in a], s=[list(x) for x in s], k=list(k)))
        self.lines.append('? ' + line)

    def int(self, o, *a):
        self.add(o, '( @%d %s %s ) %s' % (INTS[o], I, ' '.join(bits(x) for x in a), SHAPE[o]), a=a)

    def str(self, o, *s):
        if o in ('strs', 'lines'):
            arg = ' '.join(['l%d' % len(s)] + [text(x) for x in s])
        elif o == 'join':
            arg = ' '.join(['l%d' % (len(s) - 1)] + [text(x) for x in s[1:]] + [text(s[0])])
        else:
            arg = ' '.join(text(x) for x in s)
        self.add(o, '( @%d %s %s ) %s' % (STRS[o], S, arg, SHAPE[o]), s=s)

    def char(self, o, *k):
        self.add(o, '( @%d %s %s ) %s' % (CHARS[o], C, ' '.join('c%d' % x for x in k), SHAPE.get(o, 'e')), k=k)

    def logic(self, o, *k):
        self.add(o, '( @%d %s %s ) e' % (LOGIC[o], G, ' '.join('e%d' % x for x in k)), k=k)

    def bit(self, o, arg, **kw):
        self.add(o, '( @%d %s %s ) %s' % (BITS[o], B, arg, SHAPE[o]), **kw)


def integer(rnd, most):
    n = rnd.choice([1, 2, 3, 5, 8, 13, 31, 32, 33, 63, 64, 65, rnd.randrange(1, most), rnd.randrange(1, most)])
    n = min(n, most)
    x = rnd.choice([lambda: rnd.getrandbits(n), lambda: 1 << n, lambda: (1 << n) - 1, lambda: (1 << n) + 1,
                    lambda: ((1 << n) - 1) ^ (1 << rnd.randrange(n)), lambda: 10 ** rnd.randrange(1 + n // 4),
                    lambda: int(''.join(rnd.choice(['0' * 7, '1' * 5, '10', '01', '1']) for _ in range(1 + n // 5)), 2)])()
    return -x if rnd.random() < 0.4 else x


def jobs(seed, thorough):
    rnd = random.Random(seed * 7919 + 17)
    out = []
    cur = [None]

    def job():
        if cur[0] is None or len(cur[0].ops) >= 60:
            cur[0] = Job('j%d' % len(out))
            out.append(cur[0])
        return cur[0]
    two = ['add', 'sub', 'mul', 'eq', 'lt', 'le', 'gt', 'ge', 'max', 'min', 'ord', 'div']
    one = ['neg', 'abs', 'incr', 'decr', 'iszero', 'show']
    # every small operand
    m = 24 if thorough else 10
    for a in range(-m, m + 1):
        for b in range(-m, m + 1):
            for o in two:
                if o != 'div' or b:
                    job().int(o, a, b)
    for a in range(-300 if thorough else -70, 1100 if thorough else 300):
        for o in one:
            job().int(o, a)
        if a >= 0:
            job().int('sqrt', a)
            job().int('lsd', a)
        job().add('host', bits(a) + ' i', a=[a])
        job().add('host', 'i%d b' % a, a=[a])
    for a in range(0, 260 if thorough else 140):
        job().int('exp2', a)
    # large operands, and operands close to each other
    for _ in range(30000 if thorough else 2500):
        most = rnd.choice([40, 70, 130, 300]) if rnd.random() < 0.9 else 600
        a = integer(rnd, most)
        b = rnd.choice([lambda: integer(rnd, most), lambda: integer(rnd, max(2, most // 3)), lambda: a, lambda: -a, lambda: a + rnd.choice([-1, 1]),
                        lambda: -a + rnd.choice([-1, 1]), lambda: a ^ (1 << rnd.randrange(most)) if a >= 0 else a * 2,
                        lambda: a >> rnd.randrange(most)])()
        o = rnd.choice(two + ['div', 'div', 'mul'])
        if o == 'div':
            if rnd.random() < 0.3:
                a = b * integer(rnd, 40) + rnd.choice([-1, 0, 1])
            if b == 0:
                continue
        job().int(o, a, b)
        o = rnd.choice(one + ['read', 'lit', 'sqrt', 'lsd'])
        if o == 'sqrt':
            a = abs(a)
            if rnd.random() < 0.6:
                a = max(0, (a >> (a.bit_length() // 2)) ** 2 + rnd.choice([-1, 0, 1]))
            job().int(o, a)
        elif o == 'lsd':
            job().int(o, abs(a))
        elif o == 'read':
            t = ('-' if rnd.random() < 0.3 else '') + '0' * rnd.choice([0, 0, 0, 1, 3]) + str(abs(a))
            t = t if rnd.random() < 0.97 else rnd.choice(['', '0', '-0', '00'])
            job().add('read', '( @%d %s %s ) b' % (INTS['read'], I, text(t.encode())), s=[list(t.encode())])
        elif o == 'lit':
            ds = [int(d) for d in '0' * rnd.choice([0, 0, 1, 2]) + str(abs(a))] if rnd.random() < 0.97 else []
            job().add('lit', '( @%d %s %s ) b' % (INTS['lit'], I, enums(ds)), s=[ds])
        else:
            job().int(o, a)
    for _ in range(1500 if thorough else 150):
        a, n = integer(rnd, 100), rnd.randrange(-3, 12)
        job().int('range', a, a + n)
        job().int('countup', rnd.randrange(-3, 20))
        job().int('countdown', rnd.randrange(-3, 20))
        h = rnd.choice([rnd.randrange(-2**63 + 1, 2**63), rnd.randrange(-2**33, 2**33), 2**63 - 1, -2**63, -2**63 + 1, 2**31, -2**31, 2**32, 2**62, -2**62])
        job().add('host', bits(h) + ' i', a=[h])
        job().add('host', 'i%d b' % h, a=[h])
        job().add('host', 'i%d i' % h, a=[h])
    # characters
    for k in CODES:
        for o in 'cord cshow upper lower alpha digit alnum space newline'.split():
            job().char(o, k)
        job().add('chr', '( @%d %s i%d ) c' % (CHARS['chr'], C, k), k=[k])
        for l in CODES if thorough else rnd.sample(CODES, 20) + [k]:
            job().char('ceq', k, l)
            job().char('ccmp', k, l)
    for k in range(1, 256):
        job().add('char', 'c%d c' % k, k=[k])
    for k in list(range(-3, 260)) + [integer(rnd, 90) for _ in range(60)]:
        job().add('chrord', '( @%d %s ( @%d %s %s ) ) b' % (CHARS['cord'], C, CHARS['chr'], C, bits(k)), a=[k])
        l = rnd.choice([k, k + 1, rnd.randrange(-3, 260)])
        job().add('ueq', '( @%d %s ( @%d %s %s ) ( @%d %s %s ) ) e' % (CHARS['ceq'], C, CHARS['chr'], C, bits(k), CHARS['chr'], C, bits(l)), a=[k, l])

    def word(n, some):
        return [rnd.choice(some) for _ in range(n)]
    for _ in range(6000 if thorough else 700):
        some = rnd.choice([CODES, [97, 98], [97, 98, 99, 32, 10], [65, 97, 48]])
        s, t = word(rnd.randrange(12), some), word(rnd.randrange(5), some)
        if rnd.random() < 0.35:
            k = rnd.randrange(len(s) + 1)
            t = s[k:k + rnd.randrange(6)] if rnd.random() < 0.6 else s[:k] + t
        job().str(rnd.choice(['seq', 'starts', 'contains', 'sord', 'contains', 'starts']), s, t)
        o = rnd.choice(['sshow', 'strs', 'lines', 'join', 'escaped', 'string', 'seq'])
        if o == 'escaped':
            e = []
            for c in s:
                e += rnd.choice([[92, 110], [92, 116], [92, 92]]) if rnd.random() < 0.4 else [c if c != 92 else 120]
            job().str('escaped', e)
        elif o == 'string':
            s = [rnd.randrange(1, 256) for _ in range(rnd.randrange(40))] if rnd.random() < 0.5 else s
            job().add('string', text(s) + ' h', s=[s])
        elif o == 'seq':
            job().str('seq', s, list(s))
        elif o == 'sshow':
            job().str(o, s)
        else:
            ws = [word(rnd.randrange(5), some) for _ in range(rnd.randrange(5))]
            job().str(o, *([t] + ws if o == 'join' else ws))
    # bits
    for _ in range(3000 if thorough else 250):
        n = rnd.randrange(1, 20)
        bs = word(n, [0, 1])
        job().bit('showbits', enums(bs), s=[bs])
        hx = word(rnd.randrange(8), range(16))
        job().bit('hex', enums(hx), s=[hx])
        job().bit('showhex', 'e%d' % (k := rnd.randrange(16)), k=[k])
        poly = [1] + word(n, [0, 1])
        reg, msg = word(n, [0, 1]), word(rnd.randrange(30), [0, 1])
        job().bit('crc', '%s %s %s' % (enums(poly), enums(reg), enums(msg)), s=[poly, reg, msg])
        seed_ = word(rnd.randrange(26), [0, 1])
        job().bit('lfsr', '%s %s' % (enums(bs), enums(seed_)), s=[bs, seed_])
        st = word(n, [0, 1])
        job().bit('shift', 's2 %s %s' % (enums(bs), enums(st)), s=[bs, st])
        c16 = [1, 1, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 1, 0, 0, 0]
        st = [0] + word(15, [0, 1])
        most = rnd.choice([1, 2, 3, 7, 8, 9, 100, rnd.randrange(1, 3000)])
        job().bit('shiftint', 's2 %s %s %s' % (enums(c16), enums(st), bits(most)), a=[most], s=[c16])
    for k in (0, 1):
        for l in (0, 1):
            job().bit('eqbit', 'e%d e%d' % (k, l), k=[k, l])
            for o in ('and', 'or', 'beq', 'bord'):
                job().logic(o, k, l)
        job().logic('not', k)
    return out


def judge(c, exe, js):
    res = calc.run(c, exe, '/Verif/Calc%', [(j.id, j.lines) for j in js])
    js = [h for h in js if h.id in res]
    f = os.path.join(c.scratch, 'ints.ndjson')
    with open(f, 'w') as o:
        for j in js:
            end, got = res[j.id]
            ops = [dict(op, j=n + 1, t='A' if got[n] is None else 'V', r=0 if got[n] is None else back(got[n])) for n, op in enumerate(j.ops) if n < len(got)]
            o.write(json.dumps(dict(id=j.id, ops=ops, end='ok' if end == 'ok' and len(ops) == len(j.ops) else 'cut')) + '\n')
    r = vt.tlc('IntsTrace', 'IntsTrace.cfg', env={'TRACE': f}, timeout=2500 if c.thorough else 600)
    c.add_tlc(r)
    if len(r.tag('OUT')) != len(js):
        raise vt.CheckError('not judged: %d of %d' % (len(r.tag('OUT')), len(js)))
    return res, {b['id']: b['at'] for b in r.tag('BAD')}


def body(c):
    exe = calc.build()
    js = jobs(c.seed, c.thorough)
    by = {j.id: j for j in js}
    res, bad = judge(c, exe, js)
    if bad:
        res, bad = judge(c, exe, [by[i] for i in sorted(bad)[:6]])
    for i, at in sorted(bad.items()):
        j = by[i]
        end, got = res[i]
        n = at - 1 if at else min(len(got), len(j.lines) - 1)
        what = '%s: %s gives %s%s' % (j.ops[n]['o'], j.lines[n], got[n] if n < len(got) else 'nothing', '' if end == 'ok' else ' (%s)' % end)
        c.violation(what, 'module /Verif/Calc%% (harness/fble), harness/valcalc.c, job:\nJ %s\n%s\n\nresults:\n%s\n' % (i, '\n'.join(j.lines), '\n'.join(map(str, got))))
    ops = {}
    for j in js:
        for op in j.ops:
            ops[op['o']] = ops.get(op['o'], 0) + 1
    c.cov['operations'] = ops
    c.cov['samples'] = c.cov['traces_validated_against_impl'] = sum(ops.values())
    mc = vt.tlc('IntsMC', 'IntsMCThorough.cfg' if c.thorough else 'IntsMC.cfg', timeout=1500)
    c.add_tlc(mc)


if __name__ == '__main__':
    sys.exit(vt.main('C17', body))
