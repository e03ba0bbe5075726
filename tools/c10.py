"""C10: the profiler accounts for every event exactly."""
import json, os, random, subprocess, sys
import vt, profrep


def history(rnd, k):
    """One legal history: blocks added at any time, several threads, deep stacks, tail calls, samples."""
    ev, names, locs = [], ['<root>'], [':0:0']
    on = k % 17 != 16
    factor = 1 if rnd.random() < 0.6 else rnd.choice([1000, 2**33, 2**40])
    stacks = []
    style = rnd.choice(['mixed', 'deep', 'tail', 'wide', 'threads']) if k % 8 else 'fan'
    most = dict(mixed=8, deep=5, tail=4, wide=24, threads=6, fan=40)[style]

    def block():
        n = rnd.choice(['a', 'f', '/Foo/Bar%.go', 'x!', 'b', '[0001X]', '**'])
        names.append(n)
        locs.append('%s:%d:%d' % (rnd.choice(['a.fble', 'src/b.fble']), rnd.randrange(300), rnd.randrange(90)))
        return ['block', 0, 0, names[-1], locs[-1]]

    def pick(top):
        if style == 'fan' and rnd.random() < 0.9:       # one block calls many others, all of them active
            return hub if top != hub else rnd.randrange(1, len(names))
        return rnd.randrange(0 if rnd.random() < 0.1 else min(1, len(names) - 1), len(names))

    def thread():
        stacks.append([0])
        ev.append(['thread', 0, 0])
    for _ in range(rnd.randrange(20, 39) if style == 'fan' else rnd.randrange(0, min(6, most))):
        ev.append(block())
    thread()
    n = rnd.randrange(5, 260 if style in ('deep', 'wide', 'tail') else 400 if style == 'fan' else 150)
    hub = rnd.randrange(1, 20)
    w = dict(mixed=(30, 12, 25, 20), deep=(50, 6, 18, 14), tail=(14, 45, 12, 22), wide=(36, 16, 30, 10), threads=(30, 12, 25, 20), fan=(60, 4, 25, 5))[style]
    while len(ev) < n:
        r = rnd.random()
        if r < 0.07 and len(names) < most:
            if rnd.random() < 0.5:
                ev.append(block())
            else:
                bs = [block() for _ in range(rnd.randrange(0, most - len(names) + 1))]
                ev.append(['blocks', bs])
            continue
        if len(stacks) < (5 if style == 'threads' else 2) and rnd.random() < 0.03:
            thread()
            continue
        live = [t for t in range(len(stacks)) if stacks[t]]
        if not live:
            thread()
            continue
        t = rnd.choice(live)
        if rnd.random() < 0.004:
            stacks[t] = []
            ev.append(['free', t + 1, 0])
            continue
        op = rnd.choices(['enter', 'replace', 'exit', 'sample'], w)[0]
        if style == 'deep' and len(stacks[t]) > 60 and rnd.random() < 0.3:      # unwind a lot at once
            for _ in range(rnd.randrange(len(stacks[t]))):
                stacks[t].pop()
                ev.append(['exit', t + 1, 0])
            continue
        if op == 'sample':
            if factor == 1 and rnd.random() < 0.2:
                ev.append(['random', t + 1, rnd.randrange(0, 6000)])
            else:
                ev.append(['sample', t + 1, rnd.randrange(0, 40)])
        elif op == 'enter' or len(stacks[t]) < 2:
            b = pick(stacks[t][-1])
            stacks[t].append(b)
            ev.append(['enter', t + 1, b])
        elif op == 'replace':
            b = pick(stacks[t][-1])
            stacks[t][-1] = b
            ev.append(['replace', t + 1, b])
        else:
            stacks[t].pop()
            ev.append(['exit', t + 1, 0])
    return dict(id=k, on=on, factor=factor, seed=rnd.randrange(2**31), ev=ev, names=names, locs=locs)


def rate(k, seed):
    """Many small random samples: how many are taken is as documented, one in 1024."""
    ev = [['block', 0, 0, 'a', 'a.fble:1:1'], ['thread', 0, 0], ['enter', 1, 1]] + [['random', 1, 1000]] * 9000
    return dict(id=k, on=True, factor=1, seed=seed, ev=ev, names=['<root>', 'a'], locs=[':0:0', 'a.fble:1:1'], rate=True)


def write(path, hs):
    def blk(b):
        src, line, col = b[4].split(':')
        return 'block %s %s %s %s\n' % (b[3], src, line, col)
    with open(path, 'w') as f:
        for h in hs:
            f.write('hist %d %d %d %d\n' % (h['id'], h['on'], h['factor'], h['seed']))
            for e in h['ev']:
                if e[0] == 'block':
                    f.write(blk(e))
                elif e[0] == 'blocks':
                    f.write('blocks %d\n' % len(e[1]) + ''.join(blk(b) for b in e[1]))
                elif e[0] in ('exit', 'free'):
                    f.write('%s %d\n' % (e[0], e[1]))
                elif e[0] == 'thread':
                    f.write('thread\n')
                else:
                    f.write('%s %d %d\n' % tuple(e))
            f.write('end\n')


def record(c, exe, hs, name):
    """Runs the histories; returns (records for TLC, failures {id: why})."""
    n = vt.NPROC * 2
    parts = [hs[i::n] for i in range(n) if hs[i::n]]

    def one(ip):
        i, p = ip
        path = os.path.join(c.scratch, '%s%d.txt' % (name, i))
        recs, fails = [], {}
        todo = p
        while todo:
            write(path, todo)
            r = subprocess.run([exe, path], stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=vt.clean_env())
            texts = r.stdout.decode('latin-1').split('~~~\n')
            done = texts[:-1]
            for h, t in zip(todo, done):
                head, rep = t.split('\n', 1)
                w = head.split()
                assert int(w[0]) == h['id']
                rs = [int(x[1:]) for x in w[1:] if x[0] == 'r']
                nums = w[w.index('table') + 1:]
                if nums.pop() != 'end':
                    fails[h['id']] = 'times are not sums of the sampled times, or ids are wrong'
                    continue
                nums = [int(x) for x in nums]
                table = []
                while nums:
                    s, cn, tm, k = nums[:4]
                    table.append(dict(self=s, count=cn, time=tm, callees=[nums[4 + 3 * j:7 + 3 * j] for j in range(k)]))
                    nums = nums[4 + 3 * k:]
                report = profrep.parse(rep, h['factor'])
                if report is None:
                    fails[h['id']] = 'report is not of the documented form'
                    continue
                ev, rnd = [], []
                it = iter(rs)
                for e in h['ev']:
                    if e[0] == 'blocks':
                        ev += [['block', 0, 0]] * len(e[1])
                    elif e[0] == 'random':
                        taken = next(it)
                        if taken:
                            ev.append(['sample', e[1], taken])
                        rnd.append((taken, e[2]))
                    else:
                        ev.append(e[:3])
                rate = []
                if h.get('rate'):
                    rate = [dict(taken=sum(a for a, _ in rnd), expected=sum(b for _, b in rnd) // 1024)]
                    ev = ev[:3] + [['sample', 1, rate[0]['taken']]]
                recs.append(dict(kind='history', id=h['id'], on=h['on'], max=len(h['names']), events=ev, table=table, report=report,
                                 names=h['names'], locs=h['locs'], random=rate))
            if len(done) == len(todo):
                if r.returncode != 0:
                    fails[todo[-1]['id']] = 'profiler run failed at the end: %d %s' % (r.returncode, r.stderr.decode('latin-1')[-300:])
                break
            h = todo[len(done)]
            fails[h['id']] = 'crashed: status %d %s' % (r.returncode, r.stderr.decode('latin-1')[-300:])
            todo = todo[len(done) + 1:]
            if len(fails) > 3:
                break
        return recs, fails
    recs, fails = [], {}
    for a, b in vt.pmap(one, list(enumerate(parts))):
        recs += a
        fails.update(b)
    return recs, fails


def perf(rnd, k):
    names = ['_start', 'main', 'f', 'g', '<root>', 'Foo(int)', 'x y', 'h', 'deep_%d' % rnd.randrange(9)]
    lines = [dict(count=rnd.randrange(1, 500), names=[rnd.choice(names) for _ in range(rnd.randrange(1, rnd.choice([4, 12, 40])))])
             for _ in range(rnd.randrange(0, 12))]
    squash = rnd.sample(names, rnd.choice([0, 0, 1, 2]))
    return dict(kind='perf', id=k, lines=lines, squash=squash, max=len(names) + 2, stop=rnd.random() < 0.5)


def perfrun(info, h):
    text = '100.00%  0.00%  cmd exe [.] _start\n' + ''.join('%d %s\n' % (l['count'], ';'.join(l['names'])) for l in h['lines'])
    if h['stop']:
        text += '   100.00%  0.00%  cmd exe [.] __libc\n99 main;f\n'
    args = [x for s in h['squash'] for x in ('--squash' if len(s) % 2 else '-s', s)]
    r = subprocess.run([info['bin']('fble-perf-profile')] + args, input=text.encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                       env=vt.clean_env())
    rep = profrep.parse(r.stdout.decode('latin-1'))
    d = dict(h, rc=r.returncode, report=rep)
    return d, args, text, r.stderr.decode('latin-1')


def validate(c, recs):
    path = os.path.join(c.scratch, 'trace.ndjson')
    with open(path, 'w') as f:
        for r in recs:
            f.write(json.dumps(r) + '\n')
    r = vt.tlc('ProfileTrace', 'ProfileTrace.cfg', env={'TRACE': path}, timeout=2400)
    c.add_tlc(r)
    if r.distinct < 2 * len(recs):
        raise vt.CheckError('TLC looked at %d states for %d records' % (r.distinct, len(recs)))
    return {b['id']: b['why'] for b in r.tag('BAD')}


def body(c):
    k = 8 if c.thorough else 1
    c.add_tlc(vt.tlc('ProfileMC', 'ProfileMCThorough.cfg' if c.thorough else 'ProfileMC.cfg', timeout=3000))
    rnd = random.Random(c.seed * 7919 + 10)
    plain, asan = vt.build('plain'), vt.build('asan')
    hs = [history(rnd, i) for i in range(1200 * k)]
    rates = [rate(len(hs) + i, rnd.randrange(2**31)) for i in range(2)]
    hs += rates
    total = {}
    for info, part in ((plain, hs), (asan, hs[::5])):
        exe = vt.harness(info, 'profrun', ['profrun.c'])
        recs, fails = record(c, exe, part, 'h')
        bad = dict(fails)
        if not fails:
            bad.update(validate(c, recs))
        c.cov['traces_validated_against_impl'] += len(recs)
        by = {h['id']: h for h in part}
        for i in sorted(bad)[:3]:
            r2, f2 = record(c, exe, [by[i]], 'again')
            why = f2.get(i) or validate(c, r2).get(i)
            if not why:         # it may take the histories before it in the same process
                r2, f2 = record(c, exe, part, 'all')
                why = f2.get(i) or validate(c, r2).get(i)
            if not why:
                raise vt.CheckError('not reproducible: history %d: %s' % (i, bad[i]))
            p = os.path.join(c.scratch, 'replay')
            write(p, [by[i]])
            c.violation('history %d of %d events: %s' % (i, len(by[i]['ev']), why),
                        'run %s FILE on:\n%s\nrecorded: %s' % (exe, open(p).read(), json.dumps(r2)[:20000]))
        if c.violations:
            return
        for h in part:
            for e in h['ev']:
                total[e[0]] = total.get(e[0], 0) + 1
    # fble-perf-profile: collapsed stacks
    ps = [perf(rnd, i) for i in range(300 * k)]
    out = vt.pmap(lambda h: perfrun(plain, h), ps)
    bad = {d['id']: 'report is not of the documented form' for d, *_ in out if d['report'] is None}
    bad.update(validate(c, [d for d, *_ in out if d['report'] is not None]))
    for i in sorted(bad)[:3]:
        d, args, text, err = perfrun(plain, ps[i])
        c.violation('fble-perf-profile: %s' % bad[i], 'run fble-perf-profile %s on:\n%s\nexit %d %s\n%s' %
                    (args, text, d['rc'], err, json.dumps(d['report'])))
    c.cov['traces_validated_against_impl'] += len(out)
    c.cov.update(samples=len(hs) + len(ps), events=total)
    if min(total.get(e, 0) for e in ('enter', 'replace', 'exit', 'sample', 'random', 'thread', 'block', 'blocks', 'free')) < 20:
        raise vt.CheckError('vacuous: %s' % total)


if __name__ == '__main__':
    sys.exit(vt.main('C10', body))
