"""C24: the profile fble-perf-profile makes of collapsed stacks."""
import json, os, random, re, subprocess, sys
import profrep, vt

BYTES = [c for c in range(1, 256) if c not in (10, 59)]


def name(rnd, n=None):
    n = rnd.choice([0, 1, 1, 2, 3, 5, 9]) if n is None else n
    how = rnd.random()
    if how < .5:
        return ''.join(rnd.choice('abcxyz_:<>()[]') for _ in range(n))
    if how < .75:
        return ''.join(rnd.choice('ab \t.,0123%\\"') for _ in range(n))
    return ''.join(chr(rnd.choice(BYTES)) for _ in range(n))


def sample(rnd, i):
    """Text (latin-1), arguments and squashed names."""
    pool = [name(rnd) for _ in range(rnd.randrange(1, 9))] + rnd.choice([[], ['main'], ['<root>'], ['main', '<root>', 'operator new']])
    if rnd.random() < .12:    # names that differ only far in
        at = rnd.choice([15, 16, 31, 32, 63, 64, 127, 128, 255, 256, 511, 1023])
        pre = name(rnd, at) if rnd.random() < .5 else 'n' * at
        pool += [pre] * (rnd.random() < .5) + [pre + x for x in rnd.sample(['a', 'b', 'ab', 'ba', ' '], 2)]
    lines = []
    if rnd.random() < .97:
        lines.append(rnd.choice(['100.00%     0.00%  cmd  exe        [.] _start', '   x', 'x', '', '12 a;b', name(rnd)]))
        for _ in range(rnd.choice([0, 1, 2, 4, 8])):
            r = rnd.random()
            if r < .88:
                depth = rnd.choice([1, 1, 2, 3, 5, 8, 14])
                path = [rnd.choice(pool) for _ in range(depth)]
                c = str(rnd.choice([0, 1, rnd.randrange(10), rnd.randrange(100), rnd.randrange(10000)]))
                l = '%s %s' % (c, ';'.join(path))
                if rnd.random() < .5:     # every length, and those where a growing buffer is full
                    want = rnd.choice([rnd.randrange(3, 40), rnd.choice([2, 6, 14, 30, 62, 126, 254, 510]) + rnd.choice([-1, 0, 0, 0, 1])])
                    pad = want - len(l)
                    if pad > 0 and rnd.random() < .5:
                        l += 'n' * pad
                    elif pad > 1:
                        l += ';' + name(rnd, pad - 1)
            elif r < .92:
                l = rnd.choice(['  50.00%  cmd exe [.] other', ' ', ' 7 main;f', 'nospace', '', '7', 'a;b;c'])
            elif r < .95:
                l = rnd.choice(['seven main;f', 'x y', '% a;b', ';a b', '.5 a', '_ a', '"1" a'])
            elif r < .97:
                l = rnd.choice(['0x1f a;b', '+3 a', '-3 a', '3a b', '007 a', '1.5 a;b'])
            else:
                l = '%d' % rnd.randrange(99) + ' '
            lines.append(l)
    text = '\n'.join(lines) + ('\n' if lines else '')
    if rnd.random() < .05 and text:
        text = text[:rnd.randrange(len(text))]
    sq = [s for s in pool if rnd.random() < .15] + ([name(rnd)] if rnd.random() < .2 else [])
    args = [x for s in sq for x in (rnd.choice(['-s', '--squash']), s)]
    return dict(id=i, text=text, args=args, squash=sq)


def run(info, h):
    try:
        r = subprocess.run([info['bin']('fble-perf-profile')] + [a.encode('latin-1') for a in h['args']], input=h['text'].encode('latin-1'),
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60, env=vt.clean_env())
    except subprocess.TimeoutExpired:
        r = subprocess.CompletedProcess([], -99, b'', b'does not end')
    out = r.stdout.decode('latin-1')
    rep = profrep.parse(out)
    code = [ord(x) for x in h['text']]
    names = {s for l in h['text'].split('\n') for s in l.split(' ', 1)[-1].split(';')}
    if rep is None or rep.get('empty'):
        rep = dict(none=True) if out == '' else dict(bad=True)
    else:
        for part in [rep['overall'], rep['selfs'], rep['locs']] + [q for g in rep['graph'] for q in (g['callers'], [g['block']], g['callees'])]:
            for x in part:
                x['name'] = [ord(y) for y in x['name']]
    return dict(id=h['id'], text=code, squash=[[ord(y) for y in s] for s in h['squash']], max=len(names) + 2, rc=r.returncode,
                said=r.stderr != b'', report=rep), out, r.stderr.decode('latin-1')


def validate(c, recs, extra=None):
    path = os.path.join(c.scratch, 'trace.ndjson')
    with open(path, 'w') as f:
        for r in recs:
            f.write(json.dumps(r) + '\n')
    r = vt.tlc('PerfTrace', 'PerfTrace.cfg', env={'TRACE': path}, timeout=2400)
    c.add_tlc(r)
    outs = r.tag('OUT')
    if len({o['id'] for o in outs}) != len(recs):
        raise vt.CheckError('TLC judged %d of %d records' % (len(outs), len(recs)))
    if extra is not None:
        extra += outs
    return {b['id']: b['why'] for b in r.tag('BAD')}


def body(c):
    rnd = random.Random(c.seed * 104729 + 24)
    plain, asan = vt.build('plain'), vt.build('asan')
    n = 12000 if c.thorough else 1500
    hs = [sample(rnd, i) for i in range(n)]
    use = lambda i: asan if i % 3 else plain
    got = vt.pmap(lambda h: run(use(h['id']), h), hs)
    outs = []
    bad = validate(c, [g[0] for g in got], outs)
    for i in sorted(bad)[:4]:
        d, out, err = run(use(i), hs[i])
        if not validate(c, [d]):
            raise vt.CheckError('not reproducible: %r' % hs[i])
        c.violation('fble-perf-profile %r: status %d, %s' % (hs[i]['args'], d['rc'], bad[i]),
                    'fble-perf-profile %r on (latin-1)\n%r\nexit status %d\nstderr: %s\nstdout:\n%s' % (hs[i]['args'], hs[i]['text'], d['rc'], err[-3000:], out))
    c.cov['traces_validated_against_impl'] += len(got)
    st = {k: sum(o['status'] == k for o in outs) for k in ('ok', 'fail', 'open')}
    lens = {len(l) for h in hs for l in h['text'].split('\n')}
    c.cov.update(texts=n, by_status=st, squashing=sum(bool(h['squash']) for h in hs), line_lengths=len(lens),
                 with_time=sum(o['time'] > 0 for o in outs), most_blocks=max(o['blocks'] for o in outs))
    if st['ok'] < n * .6 or st['fail'] < n * .02 or not {2, 6, 14, 30, 62, 126, 254} <= lens or c.cov['with_time'] < n * .4:
        raise vt.CheckError('vacuous: %s' % c.cov)


if __name__ == '__main__':
    sys.exit(vt.main('C24', body))
