"""C19: standard IO programs and their driver, checked against Stdio.tla."""
import json, os, random, shutil, subprocess, sys
import calc, vt

CORE = os.path.join(vt.REPO, 'pkgs/core')
HARN = calc.DIRS[0]
MAIN = '/Verif/ScriptIO%'
CAT = '/Core/Stdio/Cat%'


def compile_script(c, info):
    """The program compiled, every module of it."""
    d = os.path.join(c.scratch, 'compiled')
    os.makedirs(d, exist_ok=True)
    path = ['-I', HARN, '-I', CORE]
    deps = vt.must([info['bin']('fble-deps'), '-t', 'X'] + path + ['-m', MAIN]).stdout.decode()
    mods = []
    for w in deps.replace('\\\n', ' ').replace(':', ' ').split():
        for r in (HARN, CORE):
            if w.startswith(r + '/') and w.endswith('.fble'):
                mods.append(w[len(r):-5] + '%')
    mods = sorted(set(mods))
    if MAIN not in mods or len(mods) < 10:
        raise vt.CheckError('modules of the script program: %s' % mods)

    def one(k):
        m = mods[k]
        src, obj = os.path.join(d, 'm%d.c' % k), os.path.join(d, 'm%d.o' % k)
        r = subprocess.run([info['bin']('fble-compile'), '-t', 'c', '-c'] + (['--main', 'FbleStdioMain'] if m == MAIN else []) + path + ['-m', m],
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        if r.returncode != 0:
            return 'fble-compile %s: %s' % (m, r.stderr.decode('utf-8', 'replace')[-300:])
        open(src, 'wb').write(r.stdout)
        g = subprocess.run(['gcc'] + info['flags'] + ['-O0', '-I', CORE, '-c', '-o', obj, src], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if g.returncode != 0:
            return 'gcc on the code for %s: %s' % (m, g.stdout.decode('utf-8', 'replace')[-300:])
    bad = [x for x in vt.pmap(one, range(len(mods))) if x]
    exe = os.path.join(d, 'script')
    if not bad:
        g = subprocess.run(['gcc', '-o', exe] + [os.path.join(d, 'm%d.o' % k) for k in range(len(mods))] + [info['libcore'], info['libfble']],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if g.returncode != 0:
            bad = ['linking: ' + g.stdout.decode('utf-8', 'replace')[-300:]]
    return exe, bad


def word(rnd):
    r = rnd.random()
    if r < 0.1:
        return b''
    if r < 0.2:
        return bytes(rnd.choice([1, 7, 13, 27, 127, 128, 195, 255, 65, 66, 32]) for _ in range(rnd.randint(1, 6)))
    if r < 0.3:
        return rnd.choice([b'--', b'-h', b'--help', b'-', b'--profile', b'-m', b'a b', b"it's", b'x\ny', b'\t', b'$HOME', b'*', b'\\n', b'%s%d', b'"', b'-I'])
    return bytes(rnd.choice(list(range(32, 127)) + [9, 10]) for _ in range(rnd.choice([1, 2, 3, 5, 8, 20])))


PATHS = [b'f0', b'f1', b'd/f2', b'd/e/with space', b'f~3', b'new0', b'new1', b'd/new2', b'F0', b'f']
NOWHERE = [b'no/f', b'', b'f0/x', b'd/none/x', b'no such/new']
OPTS = [b'--help', b'-h', b'--version', b'-v', b'--profile']
DIRNAMES = [b'd', b'd/e']
VARS = [b'VA', b'VB', b'V_C', b'EMPTY', b'HOME_', b'va', b'V D', b'VAX', b'V']


def script(rnd, kind):
    """argv for the program (script first) and what the world has; kind pure leaves files and variables out of it."""
    names = rnd.sample(PATHS, rnd.randint(2, 6))
    files = {}
    for n in names:
        if not n.endswith((b'new0', b'new1', b'new2')) and rnd.random() < 0.75:
            files[n] = bytes(rnd.choice([rnd.randrange(256), 10, 65, 66]) for _ in range(rnd.choice([0, 1, 3, 8, 30])))
    env = {v: rnd.choice([b'', b'value', b'a=b', b' sp ', b'\xc3\xa9', b'x' * 40, b'1\n2', b'=']) for v in rnd.sample(VARS, rnd.randint(0, 5)) if b' ' not in v or rnd.random() < 0.5}
    data = names + rnd.sample(NOWHERE, 2) + rnd.sample(VARS, 3) + [b'V=', b''][:rnd.randrange(3)] + [word(rnd) for _ in range(rnd.randint(1, 4))]
    dirs = rnd.random() < 0.2
    if dirs:
        data.append(rnd.choice(DIRNAMES))
    where = dict((n, k + 1) for k, n in reversed(list(enumerate(data))))
    stdin = bytes(rnd.choice([rnd.randrange(256), 10, 97, 98, 99]) for _ in range(rnd.choice([0, 1, 4, 12, 40])))
    fileargs = [where[n] for n in names] + [where[n] for n in data if n in NOWHERE]
    ops = []
    rs, ws = [None], [None, None]           # the paths of the streams, for what exists; None for those that are no files
    frozen, written = set(), set()
    for _ in range(rnd.choice([0, 1, 3, 6, 12, 25])):
        r = rnd.random()
        k = rnd.randrange(len(rs)) if rnd.random() < 0.95 else rnd.randrange(len(rs) + 3)
        j = rnd.randrange(len(ws)) if rnd.random() < 0.95 else rnd.randrange(len(ws) + 3)
        jok = j >= len(ws) or ws[j] not in frozen
        if r < 0.12:
            a = rnd.choice(fileargs)
            ops.append('r%d' % a)
            rs.append(data[a - 1])
            frozen.add(data[a - 1])
        elif r < 0.24:
            a = rnd.choice(fileargs) if not dirs or rnd.random() < 0.7 else len(data)
            if data[a - 1] in frozen:
                continue
            ops.append('w%d' % a)
            ws.append(data[a - 1])
        elif r < 0.36:
            ops.append('g%d' % k)
        elif r < 0.40:
            ops.append('l%d' % k)
        elif r < 0.43:
            ops.append('t%d' % k)
        elif r < 0.45:
            ops.append('q%d' % k)
        elif r < 0.50:
            if jok:
                ops.append('c%d,%d' % (k, j))
        elif r < 0.66:
            if jok:
                ops.append('p%d,%d' % (j, rnd.choice([rnd.randrange(256), 0, 10, 255, 65])))
        elif r < 0.70:
            if jok:
                ops.append('b%d,%d' % (j, rnd.randrange(256)))
        elif r < 0.84:
            if jok:
                ops.append('%s%d,%d' % (rnd.choice('sS'), j, rnd.randint(1, len(data))))
        elif r < 0.90:
            ops.append('v%d' % rnd.choice([where[n] for n in data if n in VARS] + [rnd.randint(1, len(data))] * 2))
        elif r < 0.94:
            ops.append('a')
        else:
            ops.append(rnd.choice('xyxyu'))
    args = [' '.join(ops).encode()] + data
    # a word of the script names no file the program makes
    return dict(args=args, files=files, env=env, stdin=stdin)


def options(rnd, w, compiled, args, prof, main=MAIN):
    """argv before the program's arguments, possibly wrong."""
    need = [] if compiled else [b'harn', b'core']
    opts = []
    for n in need:
        r = rnd.random()
        d = w + b'/' + n
        if r < 0.35:
            opts.append([b'-I', d])
        elif r < 0.6:
            opts.append([b'-I' + d])
        else:
            opts.append([rnd.choice([b'-p', b'--package']), n])
        if rnd.random() < 0.03:
            opts.pop()
    if not compiled:
        if rnd.random() < 0.97:
            opts.append([rnd.choice([b'-m', b'--module']), main.encode() if rnd.random() < 0.94 else rnd.choice([b'/Verif/None%', b'Verif/ScriptIO%', b'/Verif/ScriptIO', b'', b'%'])])
        if rnd.random() < 0.06:
            opts.append([rnd.choice([b'-m', b'--module']), main.encode()])
        if rnd.random() < 0.1:
            opts.append([b'-I', b'/nonexistent'])
        if rnd.random() < 0.06:
            opts.append([rnd.choice([b'-p', b'--package']), b'nope'])
    if rnd.random() < 0.2:
        opts.append([b'--profile', prof])
        if rnd.random() < 0.15:
            opts.append([b'--profile', prof])
    if rnd.random() < 0.06:
        opts.append([rnd.choice([b'-h', b'--help', b'-v', b'--version'])])
    rnd.shuffle(opts)
    flat = [x for o in opts for x in o]
    r = rnd.random()
    if r < 0.05 and flat and not compiled:
        return flat[:-1] if rnd.random() < 0.5 else flat + [rnd.choice([b'-I', b'-p', b'-m', b'--module', b'--package', b'--profile'])]
    starts = bool(args) and (args[0][:1] != b'-' or args[0] in (b'-', b'---', b'--verbose')) and not compiled
    if starts and r < 0.5:
        return flat + args
    return flat + [b'--'] + args


def one_run(c, rnd, i, exe, compiled):
    w = os.path.join(c.scratch, 'run%d' % i)
    s = script(rnd, 'run')
    cat = not compiled and rnd.random() < 0.08
    if cat:
        s['args'] = [rnd.choice(sorted(s['files']) * 3 + [b'-', b'no/f', b'new0', b'F9']) for _ in range(rnd.choice([0, 1, 2, 3, 4]))]
    elif rnd.random() < 0.01:
        # a long input
        s['stdin'] = bytes(rnd.choice([rnd.randrange(256), 97, 98]) for _ in range(4500))
        s['args'][0] = rnd.choice([b'g0 c0,0', b'l0 t0 g0', b'c0,1', b'g0 l0 l0 c0,0'])
    if rnd.random() < 0.03:
        s['args'] = []
    prof = rnd.choice([w + '/p.prof', w + '/p.prof', w + '/no/p.prof']).encode()
    r = rnd.random()
    if not cat and r < 0.25 and s['args']:
        # arguments of the program that look like the driver's
        own = rnd.choice([b'--help', b'-h', b'--version', b'-v', b'--profile', b'--verbose', b'-', b'---', b'--profile=x', b'-I.'])
        s['args'] = [own + (b' ' + s['args'][0] if own not in OPTS and s['args'][0] else b'')] + [a for a in s['args'][1:] if a != b'--']
    if compiled and rnd.random() < 0.6 and b'--' not in s['args']:
        argv = s['args']
    else:
        argv = options(rnd, w.encode(), compiled, s['args'], prof, CAT if cat else MAIN)
    return dict(i=i, w=w, argv=argv, prof=prof, exe=exe, compiled=compiled, cat=cat, **{k: s[k] for k in ('files', 'env', 'stdin')})


def execute(c, q):
    w = q['w']
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs(w + '/cwd/d/e')
    os.symlink(CORE, w + '/core')
    os.symlink(HARN, w + '/harn')
    os.makedirs(w + '/empty')
    cwd = (w + '/cwd').encode()
    for n, v in q['files'].items():
        open(os.path.join(cwd, n), 'wb').write(v)
    env = {k.encode(): v.encode() for k, v in vt.clean_env().items()}
    env[b'FBLE_PACKAGE_PATH'] = (w + '/empty:' + w).encode()
    base = set(env)
    env.update(q['env'])
    try:
        r = subprocess.run([q['exe'].encode()] + q['argv'], input=q['stdin'], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60, env=env, cwd=cwd)
        did = (r.returncode if r.returncode >= 0 else 100 - r.returncode, r.stdout, r.stderr)
    except subprocess.TimeoutExpired:
        did = (99, b'', b'')
    after = []
    for d, _, fs in os.walk(cwd):
        for f in fs:
            p = os.path.join(d, f)
            after.append((os.path.relpath(p, cwd), open(p, 'rb').read()))
    profiled = os.path.exists(q['prof']) and os.path.getsize(q['prof']) > 0
    shutil.rmtree(w, ignore_errors=True)
    env_seen = dict(env)
    return dict(id='run%d' % q['i'], pure=False, compiled=q['compiled'], cat=q['cat'], argv=[list(x) for x in q['argv']],
                pkgs=[[list(b'core'), list((w + '/core').encode())], [list(b'harn'), list((w + '/harn').encode())]],
                dirs=[list((w + '/core').encode())] + ([] if q['cat'] else [list((w + '/harn').encode())]), modules=[list((CAT if q['cat'] else MAIN).encode())], missing=[list(b'/Verif/None%')],
                profs=[list((w + '/p.prof').encode())],
                files=[[list(k), list(v)] for k, v in q['files'].items()],
                creatable=[list(p) for p in PATHS], env=[[list(k), list(v)] for k, v in env_seen.items()],
                after=[[list(k), list(v)] for k, v in after], status=did[0], out=list(did[1][:20000]), err=list(did[2][:20000]), profiled=profiled,
                **{'in': list(q['stdin'])}), did


def judge(c, recs):
    f = os.path.join(c.scratch, 'stdio.ndjson')
    with open(f, 'w') as o:
        for r in recs:
            o.write(json.dumps(r) + '\n')
    r = vt.tlc('StdioTrace', 'StdioTrace.cfg', env={'TRACE': f}, timeout=2500 if c.thorough else 600)
    c.add_tlc(r)
    out = r.tag('OUT')
    if len(out) != len(recs):
        raise vt.CheckError('runs not judged: %d of %d' % (len(out), len(recs)))
    return {b['id']: b['what'] for b in r.tag('BAD')}, out


def pure_runs(c, exe, rnd, n):
    jobs, qs = [], {}
    for i in range(n):
        s = script(rnd, 'pure')
        # the input and the argument bytes; what has no file has no stream either
        line = '? ( @0 . l%d %s l%d %s ) S(S(L(n),L(n),L(n)),e)' % (
            len(s['args']), ' '.join('h' + a.hex() for a in s['args']), len(s['stdin']), ' '.join('i%d' % b for b in s['stdin']))
        qs['pure%d' % i] = (s, line)
        jobs.append(('pure%d' % i, [line]))
    res = calc.run(c, exe, '/Verif/ScriptPure%', jobs)
    recs = []
    for k, (end, got) in res.items():
        s, _ = qs[k]
        if end != 'ok' or not got:
            st, left, out, err = 99, [], [], []
        elif got[0] is None:
            st, left, out, err = 3, [], [], []
        else:
            (left, out, err), st = got[0]
        recs.append(dict(id=k, pure=True, argv=[list(x) for x in s['args']], status=st, left=left, out=out, err=err, **{'in': list(s['stdin'])}))
    return recs, qs


def show(q, did):
    def t(b):
        return repr(b)[1:]
    return 'arguments: %s\nstandard input: %s\nfiles: %s\nvariables: %s\ncompiled: %s\n\nstatus %s\noutput %s\nerror output %s\n' % (
        ' '.join(t(a) for a in q['argv']), t(q['stdin']), {t(k): t(v) for k, v in q['files'].items()}, {t(k): t(v) for k, v in q['env'].items()}, q['compiled'],
        did[0], t(did[1][:3000]), t(did[2][:3000]))


def body(c):
    info = vt.build('plain')
    cexe = calc.build()
    stdio = info['bin']('fble-stdio')
    comp, bad = compile_script(c, info)
    if bad:
        comp2, bad2 = compile_script(c, info)
        if bad2:
            c.violation('the program does not compile: ' + bad2[0], '\n'.join(bad2))
            comp = None
        else:
            raise vt.CheckError('compiling the program failed only once: ' + bad[0])
    rnd = random.Random(c.seed * 1021 + 19)
    n = 16000 if c.thorough else 2200
    qs = [one_run(c, rnd, i, *((comp, True) if comp and i % 3 == 2 else (stdio, False))) for i in range(n)]
    done = vt.pmap(lambda q: execute(c, q), qs)
    precs, pqs = pure_runs(c, cexe, rnd, 3000 if c.thorough else 400)
    wrong, out = judge(c, [r for r, _ in done] + precs)
    if wrong:
        some = sorted(wrong)[:8]
        again = [execute(c, qs[int(i[3:])]) for i in some if i.startswith('run')]
        w2, _ = judge(c, [r for r, _ in again] + [r for r in precs if r['id'] in some])
        if not w2:
            raise vt.CheckError('not reproducible: %s' % wrong)
        for i, what in sorted(w2.items()):
            if i.startswith('run'):
                q, did = qs[int(i[3:])], done[int(i[3:])][1]
                c.violation('%s of a %s run: arguments %s, exit %s' % (what, 'compiled' if q['compiled'] else 'interpreted', ' '.join(repr(a)[1:] for a in q['argv'])[:300], did[0]),
                            show(q, did))
            else:
                c.violation('%s of a computation without a world: %s' % (what, pqs[i][0]['args'][0]), 'J x\n' + pqs[i][1] + '\n')
    kinds = {}
    for o in out:
        k = '%s-%d' % (o['k'], o['s'])
        kinds[k] = kinds.get(k, 0) + 1
    kinds['cat'] = sum(q['cat'] for q in qs)
    c.cov['runs'] = kinds
    c.cov['traces_validated_against_impl'] = c.cov['samples'] = len(done) + len(precs)
    if not wrong and min(kinds.get(k, 0) for k in ('run-0', 'run-1', 'run-3', 'usage-2', 'failure-3', 'help-0', 'version-0', 'pure-0', 'pure-1')) < 2:
        raise vt.CheckError('outcomes hardly met: %s' % kinds)
    c.add_tlc(vt.tlc('StdioMC', 'StdioMCThorough.cfg' if c.thorough else 'StdioMC.cfg', timeout=1500))


if __name__ == '__main__':
    sys.exit(vt.main('C19', body))
