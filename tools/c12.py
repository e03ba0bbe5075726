"""C12: module loading finds exactly the right modules in a valid order (FbleLoad.tla)."""
import json, os, random, re, subprocess, sys
import vt, fble, fblegen

WORDS = ['A', 'B', 'C', 'Foo', 'Bar', 'x', 'Main', 'M 1', "it's", '%', '.fble', 'a.b', '\xc3\xa9', 'A#', 'fble', '@', 'AB', 'A_B']


def ref(r, p):
    return ''.join('/' + fblegen.quote(w, r.random() < 0.1) for w in p) + '%'


def text(r, refs, bad):
    """A module that references refs, in that order, some of them again."""
    seq = []
    for x in refs:
        seq.append(x)
        if r.random() < 0.2:
            seq.insert(r.randrange(len(seq)), r.choice(seq))
    es = []
    for x in seq:
        m = ref(r, x)
        k = r.randrange(9)
        es.append(['%s' % m, '%s.y' % m, '(Unit@ _z) { %s; }' % m, '@<%s>' % m, 'f(x, %s)' % m, '{ %% v = %s; v; }' % m,
                   '%s.?(a: x, b: y)' % m, '@(x: %s)' % m, "%s|'a'" % m][k])
    nl = r.choice(['\n', ' ', '\n  ', '\n# /A% note\n'])
    if not es:
        t = '@(x: y)'
    else:
        t = 'f(' + (',' + nl).join(es) + ')'
    t = nl.lstrip(' ') + t + ';' + nl
    if r.random() < 0.3:
        t = '@ Unit@ = *();' + nl + t
    if bad:
        k = r.randrange(len(t))
        x = r.choice([')', ';', "'", '}', '(', '= =', '%', '/', '\x00'])
        if x != '\x00' or t[:k].count("'") % 2 == 0:      # what it means in a quoted word is left open
            t = t[:k] + x + t[k:]
    elif r.random() < 0.1:
        t += '#/A%'
    return t


def tree(i, seed):
    r = random.Random(seed)
    n = r.choice([1, 2, 3, 3, 4, 5, 6, 8, 12])
    names = []
    while len(names) < n:
        p = [r.choice(WORDS) for _ in range(r.choice([1, 1, 2, 3]))]
        if p not in names:
            names.append(p)
    # references mostly go to later modules, so that most trees have no cycle
    back = r.choice([0, 0, 0, 0.1, 0.4])
    miss = r.choice([0, 0, 0.1, 0.3])
    bad = r.choice([0, 0, 0, 0.15])
    dirs = list(range(1, r.choice([1, 1, 2, 3]) + 1))
    nowhere = ['Nowhere'], ['A', 'B', 'C', 'D'], ['a/b']
    fs = []
    for k, p in enumerate(names):
        homes = [d for d in dirs if r.random() < 0.5] or ([r.choice(dirs)] if r.random() >= miss else [])
        for d in homes:
            tgt = []
            for _ in range(r.choice([0, 1, 2, 2, 3, 4])):
                q = r.randrange(n) if r.random() < back else r.randrange(k, n) + 1
                if q >= n:
                    if r.random() < miss:
                        tgt.append(r.choice(nowhere))
                    continue
                tgt.append(names[q])
            uniq = []
            for t in tgt:
                if t not in uniq:
                    uniq.append(t)
            fs.append(dict(d=d, p=p, src=text(r, uniq, r.random() < bad)))
    sp = dirs + [9] if r.random() < 0.3 else list(dirs)
    r.shuffle(sp)
    if r.random() < 0.2:
        sp.append(r.choice(sp))
    if r.random() < 0.1:
        sp = sp[1:] or sp
    return dict(id=i, main=names[0], sp=sp, fs=fs)


def put(root, t):
    for f in t['fs']:
        p = os.path.join(root, 't%d' % t['id'], 'd%d' % f['d'], *f['p']) + '.fble'
        os.makedirs(os.path.dirname(p).encode('latin-1'), exist_ok=True)
        with open(p.encode('latin-1'), 'wb') as o:
            o.write(f['src'].encode('latin-1'))
    # something that is no module must not be found
    for d in t['sp']:
        if d != 9:
            os.makedirs(os.path.join(root, 't%d' % t['id'], 'd%d' % d), exist_ok=True)
    os.makedirs(os.path.join(root, 't%d' % t['id'], 'd1', 'Nowhere'), exist_ok=True)
    open(os.path.join(root, 't%d' % t['id'], 'd1', 'Nowhere.fbl'), 'w').close()


def path_of(root, t, f):
    return os.path.join(root, 't%d' % t['id'], 'd%d' % f['d'], *f['p']) + '.fble'


def errors(root, t, err):
    idx = {path_of(root, t, f): j + 1 for j, f in enumerate(t['fs'])}
    out = []
    for line in err.split('\n'):
        m = fble.LINE.match(line)
        if not m or not m.group(4).startswith('error:'):
            continue
        s = m.group(4)
        k = 'missing' if s.endswith('not found') else 'cycle' if s.endswith('recursively depends on itself') else 'syntax'
        l = idx[m.group(1)] * fble.BIG + int(m.group(2)) * 1000 + int(m.group(3)) if m.group(1) in idx else 0
        n = re.match(r'error: module (.*) (not found|recursively depends on itself)$', s)
        out.append((k, n.group(1) if n else '', l))
    return out


def differs(root, t, e, got):
    if got['X'] != 0:
        return 'loading ends with wait status %s: %s' % (got['X'], got['E'][-300:])
    if (got['R'] == 'loaded') != e['ok']:
        return 'loading: %s; specified %s' % (got['R'], e['err'] or 'to succeed')
    read = [path_of(root, t, t['fs'][j - 1]) for j in e['read']]
    if got['D'] != read:
        return 'files read: %s; specified %s' % (got['D'], read)
    if e['ok'] and got['ord'] != [fble.modname(p) for p in e['done']]:
        return 'modules loaded: %s; specified %s' % (got['ord'], [fble.modname(p) for p in e['done']])
    es = errors(root, t, got['E'])
    ok = len(es) == len(e['err'])
    for a, x in zip(es, e['err']):
        ok = ok and a[0] == x['k'] and a[2] in x['l'] and (a[0] == 'syntax' or a[1] == fble.modname(x['p']))
    if not ok:
        return 'errors reported: %s; specified %s' % (es, e['err'])
    return None


def line(root, t):
    return '%d\t-\t%s\t%s\n' % (t['id'], ref(random.Random(1), t['main']),
                                ':'.join(os.path.join(root, 't%d' % t['id'], 'd%d' % d) for d in t['sp']))


def deps(info, root, t, how):
    """fble-deps, with directories given by -I or as packages."""
    cmd = [info['bin']('fble-deps'), '-t', 'out.d']
    env = vt.clean_env()
    for d in t['sp']:
        if how == 'I':
            cmd += ['-I', os.path.join(root, 't%d' % t['id'], 'd%d' % d)]
        elif d != 9:
            cmd += ['-p', 'd%d' % d]
    if how == 'p':
        other = os.path.join(root, 't%d' % t['id'], 'd1')
        env['FBLE_PACKAGE_PATH'] = ':'.join([os.path.join(root, 'none'), other, os.path.join(root, 't%d' % t['id'])])
    cmd += ['-m', ref(random.Random(1), t['main'])]
    r = subprocess.run([a.encode('latin-1') for a in cmd], stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, timeout=60)
    return r.returncode, r.stdout.decode('latin-1'), r.stderr.decode('latin-1')


def body(c):
    c.add_tlc(vt.tlc('FbleLoadMC', 'FbleLoadMCThorough.cfg' if c.thorough else 'FbleLoadMC.cfg'))
    n = 12000 if c.thorough else 2500
    ts = [tree(i, (c.seed * 101 + 12) * 1000003 + i) for i in range(n)]
    root = os.path.join(c.scratch, 'r')
    for t in ts:
        put(root, t)
    f = os.path.join(c.scratch, 'trees.ndjson')
    with open(f, 'w') as o:
        for t in ts:
            o.write(json.dumps(dict(t, fs=[dict(x, src=fble.chars(x['src'])) for x in t['fs']])) + '\n')
    r = vt.tlc('FbleLoadTrace', 'FbleLoadTrace.cfg', env={'TREES': f}, stack='1g', timeout=1500)
    c.add_tlc(r)
    exp = {e['id']: e for e in r.tag('OUT')}
    if len(exp) != n or not all(e['good'] for e in exp.values()):
        raise vt.CheckError('the specification is not consistent')
    c.cov['samples'] = n
    lines = [line(root, t) for t in ts]
    for variant in ('plain', 'asan'):
        info = vt.build(variant)
        exe = vt.harness(info, 'fblerun', ['fblerun.c'])
        res = fble.run(c, exe, '-', lines, mode='load')
        for t, l in zip(ts, lines):
            m = differs(root, t, exp[t['id']], res[t['id']])
            if m and len(c.violations) < 8:
                again = fble.run(c, exe, '-', [l], mode='load')[t['id']]
                if not differs(root, t, exp[t['id']], again):
                    raise vt.CheckError('not reproducible: ' + m)
                c.violation(m, replay(t, exp[t['id']], again))
        c.cov['traces_validated_against_impl'] += n
    plain = vt.build('plain')
    some = [t for t in ts if not any(re.search(r'[\s#]', w) for x in t['fs'] for w in x['p'])][:1500 if c.thorough else 300]

    def tool(t):
        for how in 'Ip':
            rc, out, err = deps(plain, root, t, how)
            read = [path_of(root, t, t['fs'][j - 1]) for j in exp[t['id']]['read']]
            got = out.replace('\\\n', ' ').split()
            if rc != 0 or got != ['out.d:'] + read:
                return 'fble-deps (-%s) exits %d and prints %s; specified %s' % (how, rc, got, read), t, out + err
            es = errors(root, t, err)
            if [(a[0], a[2]) for a in es] != [(x['k'], a[2] if a[2] in x['l'] else x['l']) for a, x in zip(es, exp[t['id']]['err'])] \
                    or len(es) != len(exp[t['id']]['err']):
                return 'fble-deps (-%s) reports %s; specified %s' % (how, es, exp[t['id']]['err']), t, out + err
        return None
    for m in vt.pmap(tool, some):
        if m and len(c.violations) < 8:
            c.violation(m[0], replay(m[1], exp[m[1]['id']], m[2]))
    c.cov['traces_validated_against_impl'] += 2 * len(some)
    kinds = {k: sum(1 for e in exp.values() if any(x['k'] == k for x in e['err'])) for k in ('missing', 'syntax', 'cycle')}
    kinds['loaded'] = sum(1 for e in exp.values() if e['ok'])
    c.cov.update(kinds)
    if not c.violations and min(kinds.values()) < n // 40:
        raise vt.CheckError('vacuous corpus: %s' % kinds)


def replay(t, e, got):
    out = ['main: %s, search path: %s' % (t['main'], ['d%d' % d for d in t['sp']])]
    for f in t['fs']:
        out += ['---- d%d/%s.fble' % (f['d'], '/'.join(f['p'])), f['src']]
    return '\n'.join(out + ['---- specified', json.dumps(e), '---- observed', str(got)])


if __name__ == '__main__':
    sys.exit(vt.main('C12', body))
