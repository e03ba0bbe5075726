"""C26: interactive programs see every event and put their drawings on the screen (FbleApp.tla)."""
import json, os, random, re, subprocess, sys
import calc, vt

PKGS = os.path.join(vt.REPO, 'pkgs')
APP = os.path.join(PKGS, 'app')
HARN = calc.DIRS[0]
SDL = ['-I/usr/include/SDL2', '-D_REENTRANT']
PATH = ['-I', os.path.join(PKGS, 'core'), '-I', APP, '-I', HARN]
KNOWN = [4, 7, 11, 13, 14, 15, 20, 22, 26, 80, 79, 82, 81, 44, 225, 229]


def build(c, info):
    """fble-app from this tree, at the paper display."""
    d = os.path.join(c.scratch, 'app')
    os.makedirs(d)
    with open(os.path.join(d, 'fble-app.usage.h'), 'w') as f:
        f.write('static const unsigned char fbldUsageHelpText[] = "usage\\n";\n')
    srcs = [os.path.join(APP, n) for n in sorted(os.listdir(APP)) if n.endswith('.c')]
    flags = info['flags'] + SDL + ['-I', os.path.join(PKGS, 'core'), '-I', APP, '-I', d]
    objs = vt.pmap(lambda s: (vt.must(['gcc'] + flags + ['-c', '-o', os.path.join(d, os.path.basename(s) + '.o'), s]),
                              os.path.join(d, os.path.basename(s) + '.o'))[1], srcs + [os.path.join(vt.HARNESS, 'sdlstub.c')])
    link = [info['libcore'], info['libfble'], '-lSDL2', '-lGL', '-lm']
    exe = os.path.join(d, 'fble-app')
    vt.must(['gcc'] + info['flags'] + ['-o', exe] + objs + link)
    return exe, [o for o in objs if not o.endswith('fble-app.c.o')], link


def compiled_demo(c, info, objs, link):
    d = os.path.join(c.scratch, 'demo')
    os.makedirs(d)
    deps = vt.must([info['bin']('fble-deps'), '-t', 'X'] + PATH + ['-m', '/App/Demo%']).stdout.decode()
    mods = set()
    for w in deps.replace('\\\n', ' ').replace(':', ' ').split():
        for r in PATH[1::2]:
            if w.startswith(r + '/') and w.endswith('.fble'):
                mods.add(w[len(r):-5] + '%')
    mods = sorted(mods)
    if '/App/Demo%' not in mods:
        raise vt.CheckError('modules of the demo: %s' % mods)

    def one(k):
        src, obj = os.path.join(d, 'm%d.c' % k), os.path.join(d, 'm%d.o' % k)
        r = vt.must([info['bin']('fble-compile'), '-t', 'c', '-c'] + (['--main', 'FbleAppMain'] if mods[k] == '/App/Demo%' else []) +
                    PATH + ['-m', mods[k]])
        open(src, 'wb').write(r.stdout)
        vt.must(['gcc'] + info['flags'] + ['-O0', '-I', APP, '-c', '-o', obj, src])
        return obj
    exe = os.path.join(d, 'demo')
    vt.must(['gcc'] + info['flags'] + ['-o', exe] + vt.pmap(one, range(len(mods))) + objs + link)
    return exe


def integer(x):
    return 'Int|%d' % x if x >= 0 else 'Neg(Int|%d)' % -x


def num(rnd):
    return rnd.choice([0, 1, 2, 3, 5, 10, 100, 639, 640, -1, -2, -7, -50, rnd.randint(-300, 900)])


def color(rnd):
    return [rnd.choice([0, 255, 256, 1, 128, rnd.randint(0, 256)]) for _ in range(3)]


def drawing(rnd, depth):
    k = rnd.random()
    if depth == 0 or k < 0.3:
        k = rnd.random()
        if k < 0.1:
            return dict(t='blank')
        if k < 0.5:
            return dict(t='tri', p=[[num(rnd), num(rnd)] for _ in range(3)], c=color(rnd))
        return dict(t='rect', x=num(rnd), y=num(rnd), w=num(rnd), h=num(rnd), c=color(rnd))
    if k < 0.65:
        return dict(t='trans', a=[rnd.choice([1, 1, 1, 2, 3, -1, 0, -2]) for _ in range(2)], b=[num(rnd), num(rnd)], d=drawing(rnd, depth - 1))
    return dict(t='over', below=drawing(rnd, depth - 1), above=drawing(rnd, depth - 1))


def source(d):
    def pt(p):
        return 'Point@(%s, %s)' % tuple(map(integer, p))

    def col(p):
        return 'Color@(%s, %s, %s)' % tuple(map(integer, p))
    if d['t'] == 'blank':
        return 'Blank'
    if d['t'] == 'tri':
        return 'Triangle(%s, %s)' % (', '.join(map(pt, d['p'])), col(d['c']))
    if d['t'] == 'rect':
        return 'Rect(%s, %s)' % (', '.join(integer(d[k]) for k in 'xywh'), col(d['c']))
    if d['t'] == 'trans':
        if d['a'] == [1, 1]:
            return 'Translate(%s, %s, %s)' % (integer(d['b'][0]), integer(d['b'][1]), source(d['d']))
        return 'Affine(%s, %s, %s)' % (pt(d['a']), pt(d['b']), source(d['d']))
    return 'Over(%s, %s)' % (source(d['below']), source(d['above']))


def program(ops):
    xs = []
    for o in ops:
        k = o['o']
        xs.append({'event': lambda: 'Op@(event: Unit)', 'wait': lambda: 'Op@(wait: Unit)', 'fail': lambda: 'Op@(fail: Unit)',
                   'tick': lambda: 'Op@(effect: Effect@(tick: %s))' % integer(o['n']),
                   'draw': lambda: 'Op@(effect: Effect@(draw: %s))' % source(o['d']),
                   'put': lambda: "Op@(put: Str|'%s')" % o['s'],
                   'done': lambda: 'Op@(done: %s)' % ('True' if o['b'] else 'False')}[k]())
    return '''@ Op@ = /Verif/AppScript%%.Op@;
%% Unit = /Core/Unit%%.Unit;
%% Int = /Core/Int/Lit%%.Int;
%% Neg = /Core/Int%%.Neg;
%% Str = /Core/String%%.Str;
%% True = /Core/Bool%%.True;
%% False = /Core/Bool%%.False;
@ Effect@ = /App/App%%.Effect@;
%% Blank = /App/Drawing%%.Blank;
%% Triangle = /App/Drawing%%.Triangle;
%% Rect = /App/Drawing%%.Rect;
%% Over = /App/Drawing%%.Over;
%% Affine = /App/Drawing%%.Affine;
%% Translate = /App/Drawing%%.Translate;
@ Color@ = /App/Drawing%%.Color@;
@ Point@ = /App/Drawing%%.Point@;
<@>%% List = /Core/List%%.List;
/App/IO%%.Run(/Verif/AppScript%%.Script(List[
  %s]));
''' % ',\n  '.join(xs)


def events(rnd, n, start, demo):
    res, at = [], start
    for _ in range(n):
        at += rnd.choice([0, 0, 1, 3, 10, 40, 200, 250, rnd.randint(0, 100)])
        k = rnd.choice(['key_down', 'key_down', 'key_up', 'mouse_down', 'mouse_up', 'window', 'motion', 'motion', 'other'])
        if k in ('key_down', 'key_up'):
            a = [rnd.choice(KNOWN + [5, 6, 8, 9, 10, 16, 0, 40, 41, 78, 83, 224, 226, 228, 230, rnd.randint(0, 300)])]
            if demo and a == [20] and rnd.random() < 0.8:
                a = [4]
        elif k in ('mouse_down', 'mouse_up'):
            a = [rnd.choice([1, 3, 1, 3, 2, 4, 5, 0]), num(rnd), num(rnd)]
        elif k == 'window':
            a = [rnd.choice([5, 5, 5, 6, 3, 4, 1, 12, 14]), rnd.choice([1, 2, 320, 800, 1000, 480]), rnd.choice([1, 3, 240, 480, 999])]
        elif k == 'motion':
            a = [num(rnd), num(rnd), num(rnd), num(rnd)]
        else:
            a = [rnd.choice([0x100, 0x302, 0x303, 0x403, 0x700, 0x1000, 0x600])]
        res.append(dict(at=at, k=k, a=a))
    return res


def case(rnd):
    start = rnd.choice([1, 5, 100, 4000])
    ops = []
    for _ in range(rnd.randint(2, 25)):
        k = rnd.random()
        if k < 0.3:
            ops.append(dict(o='event'))
        elif k < 0.4:
            ops += [dict(o='tick', n=rnd.choice([0, 5, 50])), dict(o='wait')]
        elif k < 0.6:
            ops.append(dict(o='tick', n=rnd.choice([0, 0, 1, 2, 5, 10, 16, 50, 100, 200, 1000, -1, -5, -10000])))
        elif k < 0.8:
            ops.append(dict(o='draw', d=drawing(rnd, rnd.randint(0, 4))))
        elif k < 0.98:
            ops.append(dict(o='put', s=''.join(rnd.choice('abcXYZ 019,.') for _ in range(rnd.randint(0, 6)))))
        else:
            ops.append(dict(o='fail'))
    ops.append(dict(o='done', b=rnd.random() < 0.6))
    args = [rnd.choice(['a', 'b c', '--fps', '-h', '--', 'x,y', '']) for _ in range(rnd.choice([0, 0, 1, 3]))]
    return dict(demo=False, start=start, width=rnd.choice([640, 640, 100, 1, 1920]), height=rnd.choice([480, 480, 100, 2, 1080]),
                swaps=[rnd.choice([0, 1, 5, 10, 16, 17, 40, 1000, 1500]) for _ in range(rnd.randint(0, 12))],
                events=events(rnd, rnd.randint(0, 20), start, False), args=args, ops=ops,
                fail=rnd.random() < 0.03, fps=rnd.random() < 0.5)


def demo(rnd, compiled):
    start = rnd.choice([1, 5, 100])
    return dict(demo=True, compiled=compiled, start=start, width=rnd.choice([640, 100]), height=rnd.choice([480, 50]),
                swaps=[rnd.choice([0, 5, 150, 250]) for _ in range(rnd.randint(0, 8))],
                events=events(rnd, rnd.randint(0, 20), start, True) + [dict(at=start + 6000, k='key_down', a=[20])],
                args=[], ops=[], fail=False, fps=rnd.random() < 0.5)


def run(c, exe, dexe, k, r):
    d = os.path.join(c.scratch, 'case')
    stub = os.path.join(d, 's%d' % k)
    with open(stub, 'w') as f:
        f.write('start %d\nsize %d %d\n' % (r['start'], r['width'], r['height']))
        f.write('fail\n' if r['fail'] else '')
        for s in r['swaps']:
            f.write('swap %d\n' % s)
        for e in r['events']:
            f.write('%s %d %s\n' % (e['k'], e['at'], ' '.join(map(str, e['a']))))
    opts = ['--fps'] if r['fps'] else []
    if r['demo'] and r['compiled']:
        cmd = [dexe] + (opts + ['--'] if opts else [])
    elif r['demo']:
        cmd = [exe] + opts + PATH + ['-m', '/App/Demo%']
    else:
        with open(os.path.join(d, 'Case%d.fble' % k), 'w') as f:
            f.write(program(r['ops']))
        cmd = [exe] + opts + PATH + ['-I', d, '-m', '/Case%d%%' % k, '--'] + r['args']
    try:
        q = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120, env=vt.clean_env(
            SDLSTUB=stub, ASAN_OPTIONS='detect_leaks=0:abort_on_error=1:symbolize=0'))
        out, err, status = q.stdout.decode('latin-1'), q.stderr.decode('latin-1'), q.returncode
    except subprocess.TimeoutExpired:
        out, err, status = '', 'TIMEOUT', -1000
    if re.search(r'(?m)^=+$|runtime error: |Assertion `', err):
        status = -6
    if status == 70:
        raise vt.CheckError('the paper display: ' + err[-500:])
    pat = r' *(\d+): +(\d+)$'
    lines = out.split('\n')[:-1]
    rates = [[int(x) for x in re.match(pat, l).groups()] for l in lines + err.split('\n') if re.match(pat, l)] if r['fps'] else []
    return dict(r, id=k, out=[l for l in lines if not (r['fps'] and re.match(pat, l))], rates=rates, status=status,
                compiled=r.get('compiled', False)), err, cmd, stub


def body(c):
    info = vt.build('asan')
    exe, objs, link = build(c, info)
    dexe = compiled_demo(c, info, objs, link)
    os.makedirs(os.path.join(c.scratch, 'case'))
    rnd = random.Random(c.seed * 104729 + 26)
    n, nd = (6000, 400) if c.thorough else (400, 60)
    cases = [case(rnd) for _ in range(n)] + [demo(rnd, k % 2 == 0) for k in range(nd)]
    res = vt.pmap(lambda k: run(c, exe, dexe, k, cases[k]), range(len(cases)))
    path = os.path.join(c.scratch, 'trace.ndjson')
    with open(path, 'w') as f:
        for r in res:
            f.write(json.dumps(r[0]) + '\n')
    c.add_tlc(vt.tlc('FbleAppMC', 'FbleAppMCThorough.cfg' if c.thorough else 'FbleAppMC.cfg', timeout=3000))
    t = vt.tlc('FbleAppTrace', 'FbleAppTrace.cfg', env={'TRACE': path}, timeout=1200)
    c.add_tlc(t)
    for b in t.tag('BAD'):
        k = b['id']
        again = run(c, exe, dexe, k, cases[k])
        if again[0] != res[k][0]:
            raise vt.CheckError('not reproducible: %s\n%s' % (res[k][0], again[0]))
        r = again[0]
        c.violation('fble-app: %s (status %d)' % (b['what'], r['status']),
                    'command: SDLSTUB=%s %s\nscript:\n%s\nprogram:\n%s\nstdout:\n%s\nstderr:\n%s' % (
                        again[3], ' '.join(again[2]), open(again[3]).read(), '' if r['demo'] else program(r['ops']), '\n'.join(r['out']), again[1][-2000:]))
    st = {}
    for r in res:
        st[r[0]['status']] = st.get(r[0]['status'], 0) + 1
    said = {}
    for r in res:
        for l in r[0]['out']:
            w = ' '.join(l.split()[:2 if l.startswith('event') else 1])
            said[w] = said.get(w, 0) + 1
    c.cov.update(traces_validated_against_impl=len(res), samples=len(res), statuses=st, lines=said,
                 frame_rates=sum(len(r[0]['rates']) for r in res))
    need = ['event tick', 'event key_down', 'event key_up', 'event mouse_down', 'event mouse_up', 'event resize', 'event mouse_motion',
            'tri', 'rect', 'show', 'put', 'arg', 'stuck']
    if not c.violations and (any(said.get(w, 0) < 20 for w in need) or any(st.get(s, 0) < 5 for s in (0, 1, 3, 77)) or c.cov['frame_rates'] < 20):
        raise vt.CheckError('vacuous: %s %s' % (st, said))


if __name__ == '__main__':
    sys.exit(vt.main('C26', body))
