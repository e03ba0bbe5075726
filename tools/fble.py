"""Runs fble programs through the specification (FbleTrace.tla) and through the implementation, and compares.

A program is dict(id, fuel, main: [path words], fs: [(path words, text)]); every module of every program lives
under one root directory, so modules of different programs have different paths.  Text holds bytes as latin-1.
"""
import json, os, re, shutil, subprocess
import a64, vt, fblegen

BIG = 10000000


def put(root, progs):
    for g in progs:
        for p, text in g['fs']:
            f = (os.path.join(root, *p) + '.fble').encode('latin-1')
            os.makedirs(os.path.dirname(f), exist_ok=True)
            with open(f, 'wb') as o:
                o.write(text.encode('latin-1'))


def chars(t):
    """The characters of a text as the specification has them."""
    return [x if x != '\0' else 'NUL' for x in t]


def specify(c, progs, timeout=600, tag='p', module='FbleTrace'):
    """What the specification says of each program: {id: outcome}."""
    f = os.path.join(c.scratch, tag + '.ndjson')
    with open(f, 'w') as o:
        for g in progs:
            o.write(json.dumps(dict(id=g['id'], fuel=g.get('fuel', 2000), main=g['main'],
                                    fs=[dict(p=p, src=chars(t)) for p, t in g['fs']],
                                    **({'space': 1} if g.get('space') else {}))) + '\n')
    t = vt.tlc(module, module + '.cfg', env={'PROGS': f}, timeout=timeout, stack='1g', mem='12g')
    c.add_tlc(t)
    out = {o['id']: o for o in t.tag('OUT')}
    missing = [g['id'] for g in progs if g['id'] not in out]
    if missing:
        raise vt.CheckError('no outcome specified for %s\n%s' % (missing[:5], t.out[-2000:]))
    return out


def modname(p):
    return '/' + '/'.join(p) + '%'


def modref(p):
    """The module path as written in a program."""
    return ''.join('/' + fblegen.quote(w) for w in p) + '%'


def jobline(g, exp, flags):
    shape = exp.get('v', '-') if exp['o'] == 'value' else '-'
    fl = flags
    if exp['o'] in ('accepted', 'fuel'):
        fl += 'c'
    return '%d\t%s\t%s\t%s\n' % (g['id'], fl or '-', modref(g['main']), shape)


def parse(out):
    """Records of fblerun's output by id."""
    res, i, n = {}, 0, len(out)
    cur = None
    while i < n:
        k = out.index(b'\n', i)
        line = out[i:k].decode('latin-1')
        i = k + 1
        if line.startswith('J '):
            cur = dict(ord=[], D=[], R=None, V=None, Vs=[], M=[], P=[], X=None, E='')
            res[int(line[2:])] = cur
        elif cur is None or not line:
            continue
        elif line.startswith('O '):
            cur['ord'].append(line[2:])
        elif line.startswith('D '):
            cur['D'].append(line[2:])
        elif line.startswith('R '):
            cur['R'] = line[2:]
        elif line.startswith('V '):
            cur['V'] = line[2:]
            cur['Vs'].append(line[2:])
        elif line.startswith('M '):
            cur['M'].append([int(x) for x in line[2:].split()])
        elif line.startswith('P '):
            cur['P'].append(line[2:])
        elif line.startswith('X '):
            cur['X'] = int(line[2:])
        elif line.startswith('E '):
            m = int(line[2:])
            cur['E'] = out[i:i + m].decode('latin-1')
            i += m + 1
    return res


def shards(xs, n):
    n = max(1, min(n, len(xs)))
    return [xs[i::n] for i in range(n)]


def run(c, exe, root, lines, mode='run', extra=()):
    """Runs the jobs, several processes at a time."""
    res = {}

    def go(a):
        k, part = a
        f = os.path.join(c.scratch, 'jobs%s%d' % (os.path.basename(exe), k))
        with open(f, 'w', encoding='latin-1') as o:
            o.write(''.join(part))
        r = subprocess.run([exe, mode, root, f] + list(extra), stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           env=vt.clean_env(), timeout=3000)
        if r.returncode != 0:
            raise vt.CheckError('%s exits with %d: %s' % (exe, r.returncode, r.stderr[-500:]))
        return parse(r.stdout)
    for r in vt.pmap(go, list(enumerate(shards(lines, vt.NPROC)))):
        res.update(r)
    return res


def compile_all(c, info, progs, root, tag='c', opt='-O0', arm=None):
    """An executable with the compiled modules of the programs, and what generating said of each.
    arm: a dict that collects the instructions seen; then aarch64 code is generated instead of C, and translated."""
    exe = vt.harness(info, 'fblerun', ['fblerun.c'])
    out = os.path.join(c.scratch, 'gen' + tag)
    os.makedirs(out)
    lines = ['%d\t-\t%s\t-\n' % (g['id'], modref(g['main'])) for g in progs]
    rec = run(c, exe, root, lines, mode='gena64' if arm is not None else 'gen', extra=[out])
    ok = [g['id'] for g in progs if rec[g['id']]['R'] == 'compiled' and rec[g['id']]['X'] == 0]
    bad = {}
    files = [f for f in sorted(os.listdir(out)) if f.endswith('.c' if arm is None else '.a64') and int(f.split('_')[0]) in set(ok)]

    def cc(f):
        if arm is not None:
            try:
                text, t = a64.translate(open(os.path.join(out, f), encoding='latin-1').read())
            except a64.Bad as e:
                bad[int(f.split('_')[0])] = 'aarch64 assembly: %s' % e
                return
            except a64.Unknown as e:
                raise vt.CheckError('aarch64 assembly that is not translated: %s' % e)
            arm.setdefault('instructions', 0)
            arm['instructions'] += t.n
            arm.setdefault('kinds', set()).update(t.kinds)
            os.unlink(os.path.join(out, f))
            f = f[:-4] + '.s'
            with open(os.path.join(out, f), 'w', encoding='latin-1') as o:
                o.write(text)
        r = vt.sh(['gcc'] + info['flags'] + [opt, '-g0', '-c', '-o', os.path.join(out, os.path.splitext(f)[0] + '.o'), os.path.join(out, f)])
        if r.returncode != 0:
            if arm is not None:
                raise vt.CheckError('the translation of %s does not assemble: %s' % (f, r.stdout.decode('latin-1')[-1500:]))
            bad[int(f.split('_')[0])] = r.stdout.decode('latin-1')[-1500:]
    vt.pmap(cc, files)
    # a module that two programs share would define its symbols twice: programs have modules of their own
    good = [i for i in ok if i not in bad]
    reg = os.path.join(out, 'table.c')
    with open(reg, 'w') as o:
        o.write('#include <stddef.h>\n#include <fble/fble-generate.h>\n')
        o.write('typedef struct { const char* id; FbleGeneratedModule** module; } Entry;\n')
        for i in good:
            o.write('extern FbleGeneratedModule* fblerun_main_%d;\n' % i)
        o.write('Entry fblerun_table[] = {\n')
        for i in good:
            o.write('  { "%d", &fblerun_main_%d },\n' % (i, i))
        o.write('  { NULL, NULL } };\n')
    exe = os.path.join(out, 'fblerun')
    objs = [os.path.join(out, os.path.splitext(f)[0] + '.o') for f in files if int(f.split('_')[0]) in set(good)]
    rt = [os.path.join(vt.HARNESS, 'a64rt.S')] if arm is not None else []
    rsp = os.path.join(out, 'objs')
    with open(rsp, 'w') as o:
        o.write('\n'.join(objs))
    r = vt.sh(['gcc'] + info['flags'] + ['-DCOMPILED', '-o', exe, os.path.join(vt.HARNESS, 'fblerun.c'), reg] + rt + [
               '@' + rsp, info['libfble'], '-lm'])
    if r.returncode != 0:
        # find the programs that do not link by themselves
        for i in good:
            mine = [x for x in objs if os.path.basename(x).split('_')[0] == str(i)]
            one = os.path.join(out, 'one.c')
            with open(one, 'w') as o:
                o.write('#include <stddef.h>\n#include <fble/fble-generate.h>\n'
                        'extern FbleGeneratedModule* fblerun_main_%d;\n'
                        'typedef struct { const char* id; FbleGeneratedModule** module; } Entry;\n'
                        'Entry fblerun_table[] = { { "%d", &fblerun_main_%d }, { NULL, NULL } };\n' % (i, i, i))
            q = vt.sh(['gcc'] + info['flags'] + ['-DCOMPILED', '-o', exe, os.path.join(vt.HARNESS, 'fblerun.c'), one] + rt +
                      mine + [info['libfble'], '-lm'])
            if q.returncode != 0:
                bad[i] = q.stdout.decode('latin-1')[-1500:]
                return exe, rec, bad
        raise vt.CheckError('the compiled programs do not link together\n' + r.stdout.decode('latin-1')[-3000:])
    for x in objs if arm is None else ():
        os.unlink(x)
    return exe, rec, bad


# ---------------------------------------------------------------- reading stderr

LINE = re.compile(r'^(.*?):(\d+):(\d+): ?(.*)$')


def messages(err, g, root):
    """[(kind, location or None, file, text)] of each line of stderr; location as the specification writes it."""
    idx = {os.path.join(root, *p) + '.fble': j + 1 for j, (p, _) in enumerate(g['fs'])}
    out = []
    for line in err.split('\n'):
        m = LINE.match(line)
        if not m:
            if line:
                out.append(('text', None, None, line))
            continue
        f, l, col, text = m.group(1), int(m.group(2)), int(m.group(3)), m.group(4)
        loc = idx[f] * BIG + l * 1000 + col if f in idx else None
        kind = 'other'
        if text.startswith('error:'):
            kind = 'error'
        elif text.startswith('warning:'):
            kind = 'warning'
        out.append((kind, loc, f, text))
    return out


def show(g, loc):
    if not loc:
        return str(loc)
    f = loc // BIG
    return '%s:%d:%d' % (modname(g['fs'][f - 1][0]) if 0 < f <= len(g['fs']) else '?', loc % BIG // 1000, loc % 1000)


def order_ok(exp, got):
    return [modname(p) for p in exp['ord']] == got['ord']


def profile_of(g, got, root):
    """{(block, location): count} of the blocks that belong to the program."""
    idx = {os.path.join(root, *p) + '.fble': j + 1 for j, (p, _) in enumerate(g['fs'])}
    res = {}
    for line in got['P']:
        m = re.match(r'^(\d+) (\d+) (\d+) (.*)\t(.*)$', line, re.S)
        if not m:
            raise vt.CheckError('profile line %r' % line)
        n, l, col, name, src = int(m.group(1)), int(m.group(2)), int(m.group(3)), m.group(4).replace('\x01', '\n'), m.group(5)
        if n == 0:
            continue
        if src not in idx:
            key = ('?' + src, name)
        else:
            loc = idx[src] * BIG + l * 1000 + col
            if name[:1] == "'":
                name = name[1:-1].replace("''", "'")
            key = (name, 0 if name.endswith('%') else loc)
        res[key] = res.get(key, 0) + n
    return res


# ---------------------------------------------------------------- comparing
# What a check looks at: 'outcome' (value or abort, with the value), 'abort' (location and callers), 'static'
# (accepted or not, location of the error), 'warn', 'order' (modules loaded), 'profile'.

def compare(g, exp, got, root, what, mode):
    """None, or how the run got differs from what exp specifies."""
    o = exp['o']
    if got['X'] != 0:
        return '%s: ends with wait status %s: %s' % (mode, got['X'], got['E'][-300:])
    R = got['R']
    ms = messages(got['E'], g, root)
    errs = [m for m in ms if m[0] == 'error']
    if o in ('unloadable', 'rejected'):
        if 'static' in what or 'load' in what:
            if R not in ('unloadable', 'rejected') or ('load' in what and R != o):
                return '%s: %s, specified %s at %s' % (mode, R, o, ', '.join(show(g, l) for l in exp['er']))
        else:
            return None
        if not errs:
            return '%s: no error is reported; specified at %s' % (mode, ', '.join(show(g, l) for l in exp['er']))
        wrong = [m for m in errs if m[1] not in exp['er'] and not m[3].startswith('error: (') and
                 not (o == 'unloadable' and 0 in exp['er'])]
        if wrong and 'where' in what:
            return '%s: error at %s:%s (%s); specified at %s' % (
                mode, wrong[0][2], show(g, wrong[0][1]), wrong[0][3], ', '.join(show(g, l) for l in exp['er']))
        return None
    if R in ('unloadable', 'rejected', None, 'inconsistent'):
        if 'static' in what or 'load' in what or 'outcome' in what:
            return '%s: %s (%s); specified to be accepted' % (mode, R, '; '.join('%s:%s %s' % (m[2], show(g, m[1]), m[3]) for m in errs[:2]) or got['E'][-200:])
        return None
    if 'order' in what and 'ord' in exp and mode != 'compiled' and not order_ok(exp, got):
        return '%s: loads %s; specified %s' % (mode, got['ord'], [modname(p) for p in exp['ord']])
    if 'warn' in what and mode != 'compiled':
        w = sorted(m[1] if m[1] else -1 for m in ms if m[0] == 'warning')
        if w != sorted(exp['w']):
            return '%s: warnings at %s; specified at %s' % (mode, [show(g, x) for x in w], [show(g, x) for x in sorted(exp['w'])])
    if o in ('accepted', 'fuel'):
        return None
    if 'outcome' in what:
        if R != o:
            return '%s: %s; specified %s %s' % (mode, R, o, exp.get('v', ''))
        if o == 'value' and got['V'] != exp['v']:
            return '%s: value %s; specified %s' % (mode, got['V'], exp['v'])
    if 'abort' in what and o == 'abort' and R == 'abort':
        first = [i for i, m in enumerate(ms) if m[0] == 'error']
        if not first:
            return '%s: aborts without reporting an error' % mode
        trace = [m for m in ms[first[0]:] if m[0] in ('error', 'other')]
        locs = [m[1] for m in trace]
        if not any(matches(a, [x for x in locs if x is not None]) for a in exp['ab']):
            return '%s: abort reported at %s; specified %s' % (
                mode, [show(g, l) if l else m[2] for m, l in zip(trace, locs)],
                [(a['what'], show(g, a['l']), [show(g, x) for x in a['cs']]) for a in exp['ab']])
    if 'profile' in what and o == 'value' and R == 'value':
        p = profile_of(g, got, root)
        want = {}
        for x in exp['p']:
            want[x['b'], x['l']] = want.get((x['b'], x['l']), 0) + x['n']
        p = {k: n for k, n in p.items() if not k[0].startswith('?')}
        if p != want:
            d = [(k, p.get(k, 0), want.get(k, 0)) for k in sorted(set(p) | set(want), key=str) if p.get(k, 0) != want.get(k, 0)]
            return '%s: profile differs: %s' % (mode, '; '.join('%s at %s entered %d times, specified %d' % (k[0], show(g, k[1]), a, b) for k, a, b in d[:4]))
    return None


def matches(a, locs):
    """locs: the locations reported that lie in the program (not in the run time system)."""
    want = [a['l']] + list(a['cs'])
    # calling an undefined function is reported in the run time system, then at the call unless it is a tail call
    return locs == want or a['what'] == 'undefined function' and locs == list(a['cs'])
