"""C23: the tools' command lines."""
import json, os, random, re, shutil, subprocess, sys
import vt

TEXT = {
    'plain': '@ U@ = *();\nU@();\n',
    'syntax': '@ U@ = ;\nU@();\n',
    'type': '@ U@ = *();\nx;\n',
    'abort': '@ U@ = *();\n@ E@ = +(U@ a, U@ b);\nE@(a: U@()).b;\n',
}
NAMES = [['A'], ['B'], ['C', 'D'], ['C'], ['E2'], ['Loop'], ['X_y', 'Z', 'W']]


def mod(p):
    return '/' + '/'.join(p) + '%'

LONG = 'n' * 200
ALIAS = {'q': 'q2', LONG: 'q1'}


def world(rnd, root):
    """Directories a, b, d/e and packages in q1, q2; modules in them."""
    dirs = ['a', 'b', 'd/e', 'q1/core', 'q1/lib', 'q2/lib', 'q2/more']
    fs = []
    for k, d in enumerate(dirs):
        os.makedirs(os.path.join(root, d))
        for p in NAMES:
            if rnd.random() < .55:
                how = rnd.choice(['plain'] * 4 + ['one', 'one', 'two', 'two', 'syntax', 'type', 'abort'])
                if how == 'one':
                    q = rnd.choice(NAMES + [['None']])
                    t = '%s;\n' % mod(q)
                elif how == 'two':
                    q = [rnd.choice(NAMES) for _ in range(rnd.choice([2, 3]))]
                    t = ''.join('%% _v%d = %s;\n' % x for x in enumerate(map(mod, q))) + TEXT['plain']
                else:
                    t = TEXT[how]
                f = os.path.join(root, d, *p) + '.fble'
                os.makedirs(os.path.dirname(f), exist_ok=True)
                open(f, 'w').write(t)
                fs.append(dict(d=k + 1, p=p, src=list(t), k=how if how in ('type', 'abort') else 'ok'))
    spell = [(d, k + 1) for k, d in enumerate(dirs)] + [('./a', 1), ('a/.', 1), ('b//', 2), (os.path.join(root, 'a'), 1), ('nowhere', 0), ('.', 0)]
    for a, b in ALIAS.items():
        os.symlink(b, os.path.join(root, a))
    has = [[a, b] for a in ['q1', 'q2', os.path.join(root, 'q2')] + list(ALIAS) for b in ('core', 'lib', 'more') if os.path.isdir(os.path.join(root, a, b))]
    at = dict(('%s' % d, k + 1) for k, d in enumerate(dirs))
    where = spell + [('%s/%s' % (a, b), at['%s/%s' % (ALIAS.get(a, os.path.basename(a)), b)]) for a, b in has if (a, b) != ('q1', 'x')]
    return dict(fs=fs, where=[list(x) for x in dict(where).items()], has=has, packages=['core', 'lib', 'more', 'nope'], root=root)


def arguments(rnd, tool, w, prof, compiled):
    opts = []

    def add(*o):
        opts.append(list(o))
    if tool != 'fble-perf-profile':
        for _ in range(rnd.choice([0, 1, 1, 2, 2, 3, 4])):
            d = rnd.choice(w['where'])[0]
            r = rnd.random()
            if r < .4:
                add('-I', d)
            elif r < .7:
                add('-I' + d)
            else:
                add(rnd.choice(['-p', '--package']), rnd.choice(['core', 'lib', 'more', 'lib', 'core', 'nope'] if rnd.random() < .3 else ['core', 'lib', 'more']))
        for _ in range(rnd.choice([1] * 14 + [0, 2]) if not compiled else rnd.choice([0] * 6 + [1])):
            m = mod(rnd.choice(NAMES + [['None']]))
            if rnd.random() < .12:
                m = rnd.choice(["/'A'%", ' /A%', '/A %', '/C/ D%', '/C#x\n/D%', "/'C/D'%", "/'A%", 'A', '/A', '/A%%', '', '%', '/A%.x', '//A%', '/A/%', "/C'D'%", '/A%;', "/''%", '/A,B%'])
            add(rnd.choice(['-m', '--module']), m)
    if tool in ('fble-deps', 'fble-compile'):
        ts = ['x', 'out.d', 't' * 70, 'a/b'] if tool == 'fble-deps' else ['c'] * 12 + ['aarch64'] * 3 + ['C', 'x86', '']
        for _ in range(rnd.choice([1] * 12 + [0] * (1 if tool == 'fble-deps' else 3) + [2])):
            add(rnd.choice(['-t', '--target']), rnd.choice(ts))
    if tool == 'fble-compile':
        if rnd.random() < .6:
            add(rnd.choice(['-c', '--compile']))
        if rnd.random() < .1:
            add(rnd.choice(['-c', '--compile']))
        for o in (rnd.choice(['-e', '--export']), '--main'):
            for _ in range(rnd.choice([0, 0, 0, 1, 1, 1, 1]) + (rnd.random() < .04)):
                add(o, rnd.choice(['Foo', 'bar_2', '_x'] if o != '--main' else ['Main2', 'FbleTestMain', 'wrap']))
    if tool == 'fble-test' and rnd.random() < .3:
        for _ in range(rnd.choice([1, 1, 1, 1, 2])):
            add('--profile', prof)
    if tool == 'fble-perf-profile':
        for _ in range(rnd.randrange(4)):
            add(rnd.choice(['-s', '--squash']), rnd.choice(['main', 'f', 'x y', '', '-h']))
    if rnd.random() < .08:
        add(rnd.choice(['-h', '--help', '-v', '--version']))
    if rnd.random() < .07:
        add(rnd.choice(['--', 'x', '--nope', '-x', '-', '', '-c', '--hel', '--help=1', '-hv', '--module=/A%', '-s', '-e', '--profile', '-t', '--main', '-m', '-I', '-p', '--squash', '--target']))
    rnd.shuffle(opts)
    flat = [x for o in opts for x in o]
    if flat and rnd.random() < .03:
        flat.pop()
    return flat


def execute(c, q, w):
    env = dict(vt.clean_env())
    env.pop('FBLE_PACKAGE_PATH', None)
    if q['pkgpath'] is not None:
        env['FBLE_PACKAGE_PATH'] = ':'.join(q['pkgpath'])
    try:
        r = subprocess.run([q['exe']] + q['argv'], input=b'head\n3 main;f\n', stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=30, env=env, cwd=w['root'])
        rc, out, err = (r.returncode if r.returncode >= 0 else 100 - r.returncode), r.stdout.decode('latin-1'), r.stderr.decode('latin-1')
    except subprocess.TimeoutExpired:
        rc, out, err = 99, '', 'does not end'
    d = dict(id=q['id'], tool=q['tool'], argv=q['argv'], world=q['world'], compiled=q['compiled'], pkgpath=q['pkgpath'] or [], status=rc,
             out=len(out), err=len(err), named=q['tool'] in out, deps=['', []], names=[], uses=[], full=False, writable=q['writable'], profiled=False)
    if q['tool'] == 'fble-deps' and rc == 0 and ':' in out:
        t, rest = out.split(':', 1)
        if re.match(r'^(\s*\\\n|[^\n])*\n\Z', rest):
            d['deps'] = [t, rest.replace('\\\n', ' ').split()]
    if q['tool'] == 'fble-compile' and rc == 0 and out and not {'-h', '--help', '-v', '--version'} & set(q['argv']):
        d['names'], d['uses'], d['full'] = symbols(c, q, out)
    if q['prof'] and os.path.exists(q['prof']):
        d['profiled'] = open(q['prof']).read().startswith('Profile Report')
        os.remove(q['prof'])
    return d, (rc, out, err)


def symbols(c, q, out):
    """What the generated code defines and uses: names it was asked for, main, and whether there is more to it."""
    want = {q['argv'][k + 1] for k, a in enumerate(q['argv'][:-1]) if a in ('-e', '--export', '--main')}
    if 'c' in q['argv']:
        f = os.path.join(c.scratch, q['id'])
        open(f + '.c', 'w').write(out)
        r = subprocess.run(['gcc', '-w', '-c', '-O0', '-I', os.path.join(vt.REPO, 'include'), '-o', f + '.o', f + '.c'], stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=vt.clean_env())
        if r.returncode != 0:
            return ['does not compile'], [], False
        ls = [l.split() for l in subprocess.run(['nm', f + '.o'], stdout=subprocess.PIPE, check=True).stdout.decode().splitlines()]
        os.remove(f + '.o')
        os.remove(f + '.c')
        names = {l[-1] for l in ls if l[-2] != 'U'}
        uses = {l[-1] for l in ls if l[-2] == 'U'}
    else:
        names = set(re.findall(r'^([A-Za-z_]\w*):', out, re.M))
        uses = set(re.findall(r'\w+', out)) & want
    return sorted(names & (want | {'main'})) or ['.'], sorted(uses & want), len({n for n in names if not n.startswith('.L')} - want - {'main'}) > 0


def judge(c, recs, ws):
    f = os.path.join(c.scratch, 'runs.ndjson')
    with open(f, 'w') as o:
        for r in recs:
            o.write(json.dumps(r) + '\n')
    g = os.path.join(c.scratch, 'worlds.ndjson')
    with open(g, 'w') as o:
        for w in ws:
            o.write(json.dumps(w) + '\n')
    r = vt.tlc('ToolsTrace', 'ToolsTrace.cfg', env={'TRACE': f, 'WORLDS': g}, timeout=2500 if c.thorough else 600)
    c.add_tlc(r)
    out = r.tag('OUT')
    if len(out) != len(recs):
        raise vt.CheckError('runs not judged: %d of %d' % (len(out), len(recs)))
    return {b['id']: b for b in r.tag('BAD')}, out


def compiled_test(c, info):
    d = os.path.join(c.scratch, 'comp')
    os.makedirs(d)
    open(d + '/A.fble', 'w').write(TEXT['plain'])
    r = subprocess.run([info['bin']('fble-compile'), '-t', 'c', '-c', '--main', 'FbleTestMain', '-I', d, '-m', '/A%'], stdout=open(d + '/a.c', 'w'), env=vt.clean_env())
    exe = d + '/fble-test-a'
    g = subprocess.run(['gcc'] + info['flags'] + ['-O0', '-I', os.path.join(vt.REPO, 'include'), '-o', exe, d + '/a.c', info['libtest'], info['libcore'], info['libfble'], '-lm'],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    return exe if r.returncode == 0 and g.returncode == 0 else None


def body(c):
    k = 8 if c.thorough else 1
    rnd = random.Random(c.seed * 4001 + 23)
    ws = []
    for i in range(4 * k):
        root = os.path.join(c.scratch, 'w%d' % i)
        os.makedirs(root)
        ws.append(world(rnd, root))
    infos = [vt.build('plain'), vt.build('asan')]
    tools = ['fble-deps', 'fble-disassemble', 'fble-compile', 'fble-compile', 'fble-test', 'fble-perf-profile']
    comp = compiled_test(c, infos[0])
    qs = []
    for i in range(900 * k):
        tool = rnd.choice(tools)
        w = rnd.randrange(len(ws))
        compiled = bool(comp) and tool == 'fble-test' and rnd.random() < .2
        writable = rnd.random() < .8
        prof = os.path.join(c.scratch, 'p%d.prof' % i) if writable else os.path.join(c.scratch, 'none', 'p')
        path = rnd.choice([None] + [rnd.sample(['q1', 'q2', os.path.join(ws[w]['root'], 'q2'), 'nowhere', 'z', LONG[1:]] + list(ALIAS), rnd.randint(1, 4)) for _ in range(4)])
        qs.append(dict(id='run%d' % i, tool=tool, world=w + 1, compiled=compiled, prof=prof, writable=writable, pkgpath=path,
                       exe=comp if compiled else infos[i % 4 == 3]['bin'](tool), argv=arguments(rnd, tool, ws[w], prof, compiled)))
    by = {q['id']: q for q in qs}
    go = lambda q: execute(c, q, ws[q['world'] - 1])
    done = vt.pmap(go, qs)
    wrong, out = judge(c, [d for d, _ in done], ws)
    if wrong:
        again = {i: go(by[i]) for i in sorted(wrong)[:12]}
        w2, _ = judge(c, [d for d, _ in again.values()], ws)
        if not w2:
            raise vt.CheckError('not reproducible: %s' % wrong)
        for i, b in sorted(w2.items())[:4]:
            q, did = by[i], again[i][1]
            c.violation('%s of %s %s: exit %s, specified: %s %s' % (b['what'], q['tool'], ' '.join(map(repr, q['argv'])), did[0], b['k'], b['how']),
                        'cd %s; FBLE_PACKAGE_PATH=%s %s %s\n\nexit %s\nspecified: %s\noutput:\n%s\nerror output:\n%s\nrecorded: %s\nmodules: %s\n' % (
                            ws[q['world'] - 1]['root'], ':'.join(q['pkgpath'] or []), q['exe'], ' '.join(map(repr, q['argv'])), did[0], json.dumps(b), did[1][:3000], did[2][:2000],
                            json.dumps(again[i][0]), json.dumps([[f['d'], f['p'], ''.join(f['src'])] for f in ws[q['world'] - 1]['fs']])))
    t = {}
    for o in out:
        x = '%s %s %s' % (by[o['id']]['tool'][5:], o['k'], o['how'] if o['k'] == 'run' else '')
        t[x.strip()] = t.get(x.strip(), 0) + 1
    c.cov['runs'] = t
    c.cov['traces_validated_against_impl'] = c.cov['samples'] = len(done)
    if not wrong and min([t.get('%s %s' % (x, y), 0) for x in ('deps', 'disassemble', 'compile', 'test', 'perf-profile') for y in ('help', 'version', 'usage')]
                         + [t.get('%s run %s' % (x, y), 0) for x in ('deps', 'disassemble', 'compile', 'test') for y in ('value', 'unloadable')]
                         + [sum(v for x, v in t.items() if x.endswith('rejected')) // 4]) < 1:
        raise vt.CheckError('outcomes hardly met: %s' % t)


if __name__ == '__main__':
    sys.exit(vt.main('C23', body))
