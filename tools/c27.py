"""C27: what the sample programs (md5 and games) compute, checked against Samples.tla."""
import json, os, random, subprocess, sys
import calc, vt


def md5jobs(rnd, k):
    """Runs of fble-md5: [name, content or None] each, and standard input."""
    jobs = []
    sizes = [0, 1, 2, 3, 54, 55, 56, 57, 62, 63, 64, 65, 118, 119, 120, 121, 127, 128, 129, 183, 184]

    def content(n):
        r = rnd.random()
        if r < 0.5:
            return bytes(rnd.randrange(256) for _ in range(n))
        if r < 0.7:
            return bytes([rnd.choice([0, 255, 128, 10, 97])]) * n
        return bytes(rnd.choice(b'abcdefghij \n') for _ in range(n))
    for n in sizes + [rnd.randrange(600) for _ in range(10 * k)] + [rnd.choice([1000, 1023, 1024, 2047, 4096])] * k:
        if rnd.random() < 0.5:
            jobs.append(([], content(n)))
        else:
            jobs.append(([['f', content(n)]], content(rnd.choice([0, 5]))))
    for _ in range(12 * k):
        args = []
        for j in range(rnd.randint(1, 4)):
            r = rnd.random()
            if r < 0.25:
                args.append(['missing%d' % j, None])
            elif r < 0.5:
                args.append(['-', b''])
            else:
                args.append([rnd.choice(['f', 'some file ', 'd.', '-x', '--helpful', '_']) + str(j), content(rnd.choice(sizes[:14]))])
        jobs.append((args, content(rnd.choice(sizes[:14]))))
    return jobs


SOLVED = []


def grid(rnd):
    """A solved sudoku, from a fixed one by the symmetries."""
    g = [[(3 * (r % 3) + r // 3 + c) % 9 + 1 for c in range(9)] for r in range(9)]
    def order():
        return [3 * b + i for b in rnd.sample(range(3), 3) for i in rnd.sample(range(3), 3)]
    rows, cols, syms = order(), order(), rnd.sample(range(1, 10), 9)
    g = [[syms[g[r][c] - 1] for c in cols] for r in rows]
    if rnd.random() < 0.5:
        g = [list(x) for x in zip(*g)]
    return [x for r in g for x in r]


def puzzles(rnd, k):
    ps = []
    for _ in range(14 * k):
        g = grid(rnd)
        p = list(g)
        for i in rnd.sample(range(81), rnd.choice([0, 1, 5, 20, 30, 40, 45, 50, 54])):
            p[i] = 0
        ps.append(p)
        q = list(p)
        r = rnd.random()
        blanks = [i for i in range(81) if q[i] == 0]
        given = [i for i in range(81) if q[i]]
        if r < 0.2:
            q[rnd.choice(given)] = rnd.randint(1, 9)                      # one given changed
        elif blanks and r < 0.9:                                         # a blank filled in wrongly, but without a clash
            for i in rnd.sample(blanks, len(blanks)):
                seen = {q[j] for j in range(81) if j // 9 == i // 9 or j % 9 == i % 9 or (j // 27 == i // 27 and j % 9 // 3 == i % 9 // 3)}
                cs = [x for x in range(1, 10) if x not in seen and x != g[i]]
                if cs:
                    q[i] = rnd.choice(cs)
                    break
        else:
            i, j = rnd.sample(given, 2) if len(given) > 1 else (0, 1)
            q[i], q[j] = q[j], q[i]
        if len([x for x in q if x == 0]) <= 50:
            ps.append(q)
    return ps


def worlds(rnd, k):
    ws = []
    for _ in range(40 * k):
        r0, c0, h, w = rnd.choice([0, -3, 5, 100, -1000]), rnd.choice([0, -3, 7, 1000, -50]), rnd.randint(1, 8), rnd.randint(1, 8)
        d = rnd.choice([0.15, 0.35, 0.5, 0.8, 1])
        cells = [[r0 + r, c0 + c] for r in range(h) for c in range(w) if rnd.random() < d]
        rnd.shuffle(cells)
        if cells and rnd.random() < 0.2:
            cells.append(rnd.choice(cells))
        ws.append((rnd.choice([0, 1, 1, 1, 2, 3, 6]), cells))
    return ws


def sessions(rnd, k):
    ss = []
    squares = [a + b for a in 'ABC' for b in '123']
    for _ in range(60 * k):
        lines = []
        style = rnd.random()
        order = rnd.sample(squares, 9)
        for j in range(rnd.randint(1, 14)):
            r = rnd.random()
            if r < 0.08:
                lines.append(rnd.choice(['', 'X', 'A', 'A4', 'a1', 'D1', 'B0', ' A1', '1A', 'p', '?', 'AA1', 'C ']))
            elif r < 0.12:
                lines.append(rnd.choice(['R', 'Reset', 'R1']))
            elif r < 0.14 and j > 4:
                lines.append(rnd.choice(['Q', 'Quit']))
            elif style < 0.3 and r < 0.8 or r < 0.45:
                lines.append(rnd.choice(['P', 'P', 'Pass']))
            elif order and r < 0.9:
                lines.append(order.pop() + rnd.choice(['', '', '', ' ', '9']))
            else:
                lines.append(rnd.choice(squares))
        lines = [l + '\n' for l in lines]
        if rnd.random() < 0.2:
            lines[-1] = lines[-1][:-1]
            if not lines[-1]:
                lines.pop()
        ss.append(lines)
    return ss


def dna(rnd, k):
    jobs = []
    for _ in range(25 * k):
        seqs = []
        for j in range(rnd.randint(1, 4)):
            n = rnd.choice([1, 2, 10, 59, 60, 61, 119, 120, 121, 180, 200])
            s = ''.join(rnd.choice(rnd.choice(['ACGT', 'ABCDGHKMNRSTUVWY', 'ABCDGHKMNRSTUVWYabcdghkmnrstuvwy'])) for _ in range(n))
            w = rnd.choice([60, 60, 1, 7, 70, 200])
            seqs.append(('>' + ''.join(rnd.choice('abc XYZ>|_123') for _ in range(rnd.choice([0, 1, 10, 70]))), [s[i:i + w] for i in range(0, n, w)]))
        jobs.append((seqs, rnd.choice(['\n', '\n', '', '\n\n', '\n\nACGT\n'])))
    return jobs


def run(c, exe, module, inp, args=(), cwd=None):
    dirs = [x for p in ['core', 'md5', 'games', 'app'] for x in ('-I', os.path.join(vt.REPO, 'pkgs', p))]
    try:
        r = subprocess.run([exe, '-I', calc.DIRS[0]] + dirs + ['-m', module, '--'] + list(args), input=inp, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           timeout=120, env=vt.clean_env(), cwd=cwd or c.scratch)
    except subprocess.TimeoutExpired:
        return 99, b'', b'timed out'
    return r.returncode, r.stdout, r.stderr


def text(b):
    return ''.join(chr(x) if x == 10 or 32 <= x < 127 else '?' for x in b)


def records(c):
    """(record, how to see it again), with the real programs' results."""
    rnd = random.Random(c.seed * 1031 + 27)
    k = 20 if c.thorough else 3
    exe = calc.build()
    stdio = os.path.join(os.path.dirname(exe), 'fble-stdio')
    recs = []

    def one(j):
        what, x = j
        if what == 'md5':
            n, args, inp = x
            d = os.path.join(c.scratch, 'md5-%d' % n)
            os.mkdir(d)
            for name, b in args:
                if b is not None and name != '-':
                    with open(os.path.join(d, name), 'wb') as f:
                        f.write(b)
            rc, out, err = run(c, stdio, '/Md5/Main%', inp, [a[0] for a in args], d)
            return dict(o='md5', args=[dict(name=a, there=b is not None, bytes=list(b or b'')) for a, b in args], **{'in': list(inp)}, out=text(out), err=text(err), status=rc)
        if what == 'ttt':
            rc, out, err = run(c, stdio, '/Games/TicTacToe/Stdio%', ''.join(x).encode())
            return dict(o='tictactoe', lines=x, out=text(out), status=rc)
        seqs, end = x
        inp = '\n'.join(h + '\n' + '\n'.join(ls) for h, ls in seqs) + end
        rc, out, err = run(c, stdio, '/Games/BenchmarkGame/ReverseComplement/Stdio%', inp.encode())
        return dict(o='revcomp', seqs=[dict(header=list(h.encode()), lines=[list(l.encode()) for l in ls]) for h, ls in seqs], out=list(out), status=rc)
    jobs = [('md5', (n,) + x) for n, x in enumerate(md5jobs(rnd, k))] + [('ttt', s) for s in sessions(rnd, k)] + [('dna', x) for x in dna(rnd, k)]
    for j, r in zip(jobs, vt.pmap(one, jobs)):
        how = {'md5': 'fble-stdio -m /Md5/Main%', 'ttt': 'fble-stdio -m /Games/TicTacToe/Stdio%', 'dna': 'fble-stdio -m /Games/BenchmarkGame/ReverseComplement/Stdio%'}[j[0]]
        recs.append((dict(r, end='ok'), how))
    cj, ops = [], []
    for p in puzzles(rnd, k):
        line = '? ( @1 . l9 %s ) U(L(L(e)),_)' % ' '.join('l9 ' + ' '.join('e%d' % x for x in p[9 * r:9 * r + 9]) for r in range(9))
        ops.append(('sudoku', p))
        cj.append(('c%d' % len(cj), [line]))
    for n, cells in worlds(rnd, k):
        ops.append(('life', (n, cells)))
        cj.append(('c%d' % len(cj), ['? ( @0 . i%d l%d %s ) L(S(n,n))' % (n, len(cells), ' '.join('s2 i%d i%d' % tuple(x) for x in cells))]))
    res = calc.run(c, exe, '/Verif/GamesDrive%', cj)
    for (what, x), (i, lines) in zip(ops, cj):
        if i not in res:
            continue
        end, got = res[i]
        v = got[0] if got and end == 'ok' else None
        how = 'module /Verif/GamesDrive%% (harness/fble), harness/valcalc.c, job:\nJ %s\n%s' % (i, '\n'.join(lines))
        if what == 'life':
            recs.append((dict(o='life', n=x[0], cells=x[1], out=v or [], end='ok' if v is not None else 'cut'), how))
        else:
            a = []
            if v is not None and v[0] == WHICH[0]:
                a = [[s + 1 for r in v[1] for s in r]]
            recs.append((dict(o='sudoku', p=x, a=a, end='ok' if v is not None else 'cut'), how))
    return recs


WHICH = [0]      # the tag of Just


def body(c):
    recs = records(c)
    f = os.path.join(c.scratch, 'samples.ndjson')
    with open(f, 'w') as o:
        for i, (r, _) in enumerate(recs):
            o.write(json.dumps(dict(r, id=i)) + '\n')
    r = vt.tlc('SamplesTrace', 'SamplesTrace.cfg', env={'TRACE': f}, timeout=2500 if c.thorough else 700)
    c.add_tlc(r)
    out = {x['id']: x['ok'] for x in r.tag('OUT')}
    if len(out) != len(recs):
        raise vt.CheckError('records not judged: %d of %d' % (len(out), len(recs)))
    kinds, some = {}, 0
    for i, (rec, how) in enumerate(recs):
        kinds[rec['o']] = kinds.get(rec['o'], 0) + 1
        some += rec['o'] == 'sudoku' and rec['a'] != []
        if not out[i]:
            c.violation('%s: %s' % (rec['o'], json.dumps({k: v for k, v in rec.items() if k not in ('o', 'end')})[:300]), how + '\n\n' + json.dumps(rec))
    if all(out.values()) and not 0.3 * kinds['sudoku'] < some < 0.95 * kinds['sudoku']:
        raise vt.CheckError('puzzles are one-sided: %d of %d solved' % (some, kinds['sudoku']))
    c.cov['runs'] = kinds
    c.cov['puzzles_solved'] = some
    c.cov['samples'] = len(recs)
    c.cov['traces_validated_against_impl'] = len(recs)
    mc = vt.tlc('SamplesMC', 'SamplesMCThorough.cfg' if c.thorough else 'SamplesMC.cfg', timeout=1500)
    c.add_tlc(mc)


if __name__ == '__main__':
    sys.exit(vt.main('C27', body))
