"""C25: aarch64 code behaves as FbleEval.tla specifies, exactly as interpreted code does."""
import os, random, subprocess, sys
import vt, lang, fble, a64, earlygen, listgen, biggen

WHAT = {'outcome', 'abort', 'profile', 'static'}
OPTS = [dict(), dict(odd=0.8), dict(abort=0.9), dict(odd=0.5, abort=0.8, nodes=60), dict(lists=1, lit=1, odd=0.3)]
ODD = ['a"b', 'a\\b', '\\', '"', 'a%sb', '%', 'a b', "a'b", 'a.b', 'a-b', 'a_b', '.', '9', '\xc3\xa9', '"\\n', 'x;y', '#a', '//', '$x', ':', '\\\\', '0x41']


def oddprogram(pid, seed):
    """Modules, functions and blocks whose names mean something to an assembler or to printf."""
    r = random.Random(seed)
    w = lambda: r.choice([x for x in ODD if '/' not in x and x not in '.'])
    a, b = ['Od%d' % pid, w(), w()], ['Od%d' % pid, w()]
    f, g = r.choice(ODD), r.choice(ODD)
    f, g = fble.fblegen.quote(f + 'f', True), fble.fblegen.quote(g + 'g', True)
    one = '@ U@ = *();\n@ B@ = +(U@ t, U@ f);\n(B@) { U@; } %s = (B@ x) { x.t; };\n%s;\n' % (f, f)
    two = '@ U@ = *();\n@ B@ = +(U@ t, U@ f);\n% {o} = %s;\n(B@) { U@; } %s = (B@ x) { U@ u = {o}(x); u; };\n%s(B@(%s: U@()));\n'
    two = two.replace('% {o} = %s', '(B@) { U@; } o = %s').replace('{o}', 'o') % (fble.modref(a), g, g, r.choice('tf'))
    return dict(id=pid, fuel=600, main=b, fs=[(a, one), (b, two)])


def first(g, got, root):
    return ([m[3] for m in fble.messages(got['E'], g, root) if m[0] == 'error'] or [None])[0]


def mains(c, s, progs):
    """The main functions generated for the programs, run as the programs they are."""
    gen = os.path.join(c.scratch, 'gen' + s.tag)
    info = vt.build('plain')
    entry = os.path.join(gen, 'entry.o')
    vt.must(['gcc'] + info['flags'] + ['-c', '-o', entry, os.path.join(vt.HARNESS, 'a64entry.c')])

    def one(g):
        text = open(os.path.join(gen, '%d.main' % g['id']), encoding='latin-1').read()
        try:
            out, _ = a64.translate(text)
        except a64.Bad as e:
            return 'aarch64 assembly of main: %s' % e, text
        except a64.Unknown as e:
            raise vt.CheckError('aarch64 assembly that is not translated: %s' % e)
        f = os.path.join(gen, '%d.main.s' % g['id'])
        open(f, 'w', encoding='latin-1').write(out)
        mods = [os.path.join(gen, x) for x in os.listdir(gen) if x.startswith('%d_' % g['id']) and x.endswith('.o')]
        exe = os.path.join(gen, '%d.exe' % g['id'])
        vt.must(['gcc', '-o', exe, f, os.path.join(vt.HARNESS, 'a64rt.S'), entry] + mods + [info['libfble'], '-lm'])
        args = ['a', 'b c'][:g['id'] % 3]
        r = subprocess.run([exe] + args, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=vt.clean_env(), timeout=60)
        got = r.stdout.decode('latin-1').strip('\n')
        want = ''.join(['%d' % (1 + len(args))] + [' [%s]' % x for x in args]) + ' ' + fble.modname(g['main'])
        os.unlink(exe)
        if got != want or r.returncode != 41 + len(args):
            return 'main: %r with status %d, specified %r with status %d: %s' % (
                got, r.returncode, want, 41 + len(args), r.stderr.decode('latin-1')[-200:]), text
        return None

    for g, r in zip(progs, vt.pmap(one, progs)):
        if r and len(c.violations) < 8:
            again = one(g)
            if not again:
                raise vt.CheckError('not reproducible: %s' % r[0])
            c.violation(again[0], again[1])
    c.cov['mains'] = len(progs)


def body(c):
    n = 2500 if c.thorough else 180
    ps = [lang.program(i, (c.seed * 101 + 25) * 1000003 + i, OPTS[i % len(OPTS)]) for i in range(n)]
    ps += [earlygen.program(n + i, (c.seed * 101 + 125) * 1000003 + i) for i in range(n)]
    ps += [listgen.program(2 * n + i, (c.seed * 101 + 425) * 1000003 + i) for i in range(n // 2)]
    odd = [oddprogram(3 * n + i, (c.seed * 101 + 225) * 1000003 + i) for i in range(300 if c.thorough else 40)]
    ps += odd
    base = len(ps)
    ps += [biggen.program(base + i, (c.seed * 101 + 325) * 1000003 + i, 4100 if c.thorough and i % 4 == 0 else 600)
           for i in range(84 if c.thorough else 14)]
    s = lang.Suite(c, ps, timeout=3500 if c.thorough else 700)
    arm = {}
    a = s.compiled('plain', WHAT, arm=arm)
    b = s.interpret('plain', WHAT, 'p')
    for g in ps:
        if g['id'] in a and g['id'] in b and a[g['id']]['R'] == b[g['id']]['R'] == 'abort':
            x, y = [first(g, r[g['id']], s.root) for r in (a, b)]
            if x != y and len(c.violations) < 8:
                c.violation('aarch64: %s; interpreted: %s' % (x, y), lang.replay(g, s.exp[g['id']], a[g['id']], s.root))
            c.cov['errors_compared'] = c.cov.get('errors_compared', 0) + 1
    mains(c, s, [g for g in ps[:8] + odd[:16] if g['id'] in a])
    c.cov['instructions'] = arm.get('instructions', 0)
    c.cov['kinds'] = sorted(arm.get('kinds', ()))
    s.need(value=30, abort=15)


if __name__ == '__main__':
    sys.exit(vt.main('C25', body))
