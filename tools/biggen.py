"""Programs with large structs, unions, functions, lists, literals and groups: sizes around what fits in 8, 9, 12 and 16 bits."""
import random

U = '@ U@ = *();\n@ B@ = +(U@ t, U@ f);\nB@ T = B@(t: U@());\nB@ F = B@(f: U@());\n'


def names(n, p='f'):
    return ['%s%d' % (p, k) for k in range(n)]


def size(r, top):
    return r.choice([x for x in (127, 128, 255, 256, 257, 510, 511, 512, 513, 514, 600, 1023, 1024, 1025, 4094, 4095, 4096, 4097, 4100) if x <= top])


def struct(r, top):
    n = size(r, top)
    bits = [r.random() < .5 for _ in range(n)]
    k = r.choice([0, n - 1, r.randrange(n)])
    s = '@ S@ = *(%s);\n' % ', '.join('B@ ' + x for x in names(n))
    arg = r.random()
    v = ', '.join('B@(%s: U@())' % 'ft'[b] if arg < .5 else 'FT'[b] for b in bits)
    return s + '(S@) { B@; } Get = (S@ s) { s.f%d; };\nS@ x = S@(%s);\nGet(x)%s;\n' % (k, v, '.t' if r.random() < .3 else '')


def union(r, top):
    n = size(r, top)
    k = r.choice([0, n - 1, r.randrange(n)])
    s = '@ V@ = +(%s);\n' % ', '.join('U@ ' + x for x in names(n))
    tags = sorted(set([r.randrange(n) for _ in range(r.choice([1, 2, 5, 20, 100]))] + ([k] if r.random() < .5 else []) + r.choice([[], [0], [n - 1]])))
    if r.random() < .2 and n <= 600:
        tags = list(range(n))
    want = {t: r.choice('TF') for t in tags}
    sel = ', '.join('f%d: %s' % (t, want[t]) for t in tags)
    if len(tags) < n:
        d = r.choice('TF')
        sel += ', : %s' % d
    return s + '(V@) { B@; } Which = (V@ v) { v.?(%s); };\nV@ x = V@(f%d: U@());\n%s;\n' % (
        sel, k, r.choice(['Which(x)', 'Which(x)', '{ U@ y = x.f%d; Which(x); }' % r.choice([k, r.randrange(n)])]))


def func(r, top):
    n = min(size(r, top), 1100)
    ps = names(n, 'a')
    k = r.choice([0, n - 1, r.randrange(n)])
    bits = [r.choice('TF') for _ in range(n)]
    ty = '(%s) { B@; }' % ', '.join(['B@'] * n)
    body = r.choice(['a%d' % k, '{ B@ z = a%d; z.?(t: F, f: T); }' % k])
    tail = r.random() < .5
    call = 'Fn(%s)' % ', '.join(bits)
    return '%s Fn = (%s) { %s; };\n' % (ty, ', '.join('B@ ' + p for p in ps), body) + \
        ('%s;\n' % call if tail else 'B@ r = %s;\nr;\n' % call)


def group(r, top):
    """A recursive group, captured by one function."""
    n = min(size(r, top), 600)
    fs = names(n, 'g')
    k = r.randrange(n)
    bind = ['(B@) { B@; } %s = (B@ x) { x.?(t: %s(F), f: x); }' % (f, r.choice(fs[:3])) for f in fs[:3]] + \
           ['B@ %s = %s' % (f, r.choice(['T', 'F', 'B@(t: U@())'])) for f in fs[3:]]
    use = ['%s.?(t: T, f: F)' % f for f in r.sample(fs[3:], min(len(fs) - 3, 5))]
    body = '(B@ y) { @ P@ = *(%s); P@(%s).p%d; }' % (', '.join('B@ p%d' % j for j in range(len(fs) - 3)), ', '.join(fs[3:]), max(0, min(k, len(fs) - 4)))
    return '{ %s; (B@) { B@; } H = %s; { B@ u = %s; H(u); }; };\n' % (',\n'.join(bind), body, use[0])


def lists(r, top):
    n = size(r, top)
    bits = [r.choice('TF') for _ in range(n)]
    d = r.choice([0, 1, 5, 50, min(150, n - 1)])
    t = '''@ L@ = +(P@ cons, U@ nil), @ P@ = *(B@ head, L@ tail);
(L@) { L@; } Id = (L@ l) { l; };
'''
    return t + 'L@ l = Id[%s];\nl%s.cons.head;\n' % (', '.join(bits), '.cons.tail' * d)


def literal(r, top):
    n = size(r, top)
    s = ''.join(r.choice('tf') for _ in range(n))
    d = r.choice([0, 1, 5, 50, min(150, n - 1)])
    t = '''@ L@ = +(P@ cons, U@ nil), @ P@ = *(B@ head, L@ tail);
@ Lit@ = *((L@) { L@; } id);
(L@) { L@; } Id = (L@ l) { l; };
'''
    return t + 'L@ l = Id[%s];\nl%s.cons.head;\n' % (', '.join('TF'['tf'.index(x)] for x in s), '.cons.tail' * d)


def blocks(r, top):
    """Many blocks before a function: one struct of functions."""
    n = min(size(r, top), 1100)
    k = r.randrange(n)
    ty = '(B@) { B@; }'
    fs = ['(B@ x) { %s; }' % r.choice(['x', 'T', 'F', 'x.?(t: F, f: T)']) for _ in range(n)]
    return '@ S@ = *(%s);\nS@ s = S@(%s);\n%s Last = (B@ x) { x.?(t: s.f%d(F), f: x); };\nLast(T);\n' % (
        ', '.join('%s %s' % (ty, x) for x in names(n)), ',\n'.join(fs), ty, k)


def lines(r, top):
    n = r.choice([255, 256, 4095, 4096, 4097, 8191, 9000])
    col = r.choice([0, 200, 300])
    return '\n' * (n if n <= 2 * top else 600) + ' ' * col + 'T%s;\n' % r.choice(['', '.f', '.t', '.f'])


KINDS = [struct, union, func, group, lists, blocks, lines]


def program(pid, seed, top=700):
    r = random.Random(seed)
    kind = KINDS[pid % len(KINDS)]
    return dict(id=pid, fuel=200000, main=['Big%d' % pid], fs=[(['Big%d' % pid], U + kind(r, top))], kind=kind.__name__)
