"""C18: the sat package's answers, formulas read and answers printed, checked against Sat.tla."""
import itertools, json, os, random, subprocess, sys
import calc, vt

RESULT, PARSED = 'U(L(S(n,e)),_)', 'U(h,L(L(S(n,e))))'


def lit(v, pos):
    return 's2 i%d e%d' % (v, 0 if pos else 1)


def clause(c):
    return ' '.join(['l%d' % len(c)] + [lit(abs(x) if not isinstance(x, tuple) else x[0], x > 0 if not isinstance(x, tuple) else x[1]) for x in c])


def formula(f):
    return ' '.join(['l%d' % len(f)] + [clause(c) for c in f])


def rec(f):
    return [[[x[0], 0 if x[1] else 1] for x in c] for c in f]


def text(s):
    return 'h' + s.encode('latin-1').hex()


def codes(s):
    return list(s.encode('latin-1'))


class Job:
    def __init__(self, name):
        self.id, self.ops, self.lines, self.n = name, [], [], 0

    def look(self, o, line, **kw):
        self.ops.append(dict(dict(o=o, f=[], s=[], l=[], m=[], sat=False, out=[]), **kw))
        self.lines.append('? ' + line)

    def solve(self, f, claim=None):
        if claim is None:
            self.look('solve', '( @0 . %s ) %s' % (formula(f), RESULT), f=rec(f))
        else:
            self.look('claim', '( @0 . %s ) %s' % (formula(f), RESULT), f=rec(f), sat=claim)

    def steps(self, f, at):
        """The clauses added one by one, solving whenever at(k) says so; older solvers are asked again."""
        v = self.n
        self.lines.append('= @3 .')
        self.ops.append(None)
        self.n += 1
        asks = []
        for k, c in enumerate(f):
            self.lines.append('= ( @4 . $%d %s )' % (self.n - 1, clause(c)))
            self.ops.append(None)
            self.n += 1
            if at(k):
                asks.append(k)
                self.look('solve', '( @5 . $%d ) %s' % (v + k + 1, RESULT), f=rec(f[:k + 1]))
        for k in asks[:2]:
            self.look('solve', '( @5 . $%d ) %s' % (v + k + 1, RESULT), f=rec(f[:k + 1]))

    def parse(self, s):
        self.look('parse', '( @1 . %s ) %s' % (text(s), PARSED), s=codes(s))

    def parselines(self, ls):
        self.look('lines', '( @2 . l%d %s ) %s' % (len(ls), ' '.join(text(l) for l in ls), PARSED), l=[codes(l) for l in ls])

    def show(self, sat, m):
        self.look('show', '( @6 . u%d %s ) h' % (0 if sat else 1, clause(m) if sat else 's0'), sat=sat, m=rec([m])[0])

    def showf(self, f):
        self.look('showf', '( @7 . %s ) h' % formula(f), f=rec(f))


def randf(rnd, n, m, kmin, kmax):
    ids = rnd.choice([list(range(1, n + 1)), rnd.sample(range(1, 1000), n), rnd.sample(range(1, 40000000), n), list(range(n, 0, -1)),
                      list(range(n)), rnd.sample(range(-50, 50), n)])
    f = []
    style = rnd.random()
    for _ in range(m):
        k = min(rnd.randint(kmin, kmax), n)
        c = [(v, rnd.random() < (0.8 if style < 0.2 else 0.5)) for v in rnd.sample(ids, k)]
        r = rnd.random()
        if r < 0.06 and c:
            c.insert(rnd.randrange(len(c) + 1), rnd.choice(c))            # a literal twice
        elif r < 0.1 and c:
            x = rnd.choice(c)
            c.insert(rnd.randrange(len(c) + 1), (x[0], not x[1]))         # a tautology
        f.append(c)
        if rnd.random() < 0.05:
            f.append(rnd.sample(c, len(c)))                              # a clause twice
    return f


def pigeons(p, h):
    f = [[(i * h + j + 1, True) for j in range(h)] for i in range(p)]
    for j in range(h):
        for a, b in itertools.combinations(range(p), 2):
            f.append([(a * h + j + 1, False), (b * h + j + 1, False)])
    return f


def parity(rnd, n, odd):
    """x1 + .. + xn = odd, in steps of three variables."""
    f, extra = [], n + 1

    def xor(vs, want):
        for bits in itertools.product([0, 1], repeat=len(vs)):
            if sum(bits) % 2 != want:
                f.append([(v, not b) for v, b in zip(vs, bits)])
    cur = 1
    for v in range(2, n + 1):
        xor([cur, v, extra], 0)
        cur, extra = extra, extra + 1
    f.append([(cur, odd)])
    for v in range(1, n + 1):
        if rnd.random() < 0.6:
            f.append([(v, rnd.random() < 0.5)])
    rnd.shuffle(f)
    return f


def chain(rnd, n, closed):
    """Implications from 1 to n, with or without a contradiction at the end."""
    f = [[(1, True)]] + [[(k, False), (k + 1, True)] for k in range(1, n)]
    if closed:
        f.append([(n, False)])
    f += [[(rnd.randint(1, n), True), (rnd.randint(1, n), rnd.random() < 0.5)] for _ in range(3)]
    rnd.shuffle(f)
    return f


def dimacs(rnd, good):
    """Lines in the format, or damaged.  (What a clause means with words that are no numerals is left open.)"""
    n = rnd.randint(1, 9)
    lines = []
    for _ in range(rnd.choice([0, 0, 1, 2, 3])):
        lines.append(rnd.choice(['c', 'c a comment', 'c p cnf 3 3', 'cc 1 0', 'c\t-1 0 ', 'comment']))
    sp = lambda: rnd.choice([' ', ' ', ' ', '  ', '\t', ' \t '])
    lines.append('p' + sp() + 'cnf' + sp() + str(n) + sp() + str(rnd.randrange(9)) + rnd.choice(['', '', ' ']))
    for _ in range(rnd.choice([0, 1, 2, 3, 5, 8])):
        c = [str(rnd.choice([-1, 1]) * rnd.choice([rnd.randint(1, n), rnd.randint(1, n), rnd.choice([10, 100, 123456789, 2000])])) for _ in range(rnd.choice([0, 1, 1, 2, 3, 5]))]
        if rnd.random() < 0.1 and c:
            c[0] = c[0].replace('-', '-0') if '-' in c[0] else '00' + c[0]
        t = rnd.choice(['0', '0', '0', '0', '-0', '00'])
        lines.append(rnd.choice(['', '', ' ', '\t']) + sp().join(c + [t]) + rnd.choice(['', '', '', ' ', ' 5', ' 0', ' 7 -3 0']))
    if good:
        return lines
    k = rnd.randrange(len(lines))
    r = rnd.randrange(9)
    h = next(i for i, l in enumerate(lines) if l.startswith('p') )
    if r == 0 and len(lines) > h + 1:
        j = rnd.randrange(h + 1, len(lines))
        lines[j] = ' '.join(w for w in lines[j].split() if w.strip('-0') != '')     # no terminator
    elif r == 1:
        lines[h] = rnd.choice(['p cnf 3', 'p cnf 3 4 5', 'p', 'pcnf 1 2 3', 'p dnf 1 2', 'p CNF 1 2', 'p cnfx 1 2', 'P cnf 1 2', ' p cnf 1 2', 'q cnf 1 2', 'p cn 1 2'])
    elif r == 2:
        lines.insert(k, '')
    elif r == 3:
        lines.insert(k, rnd.choice([' ', '\t']))
    elif r == 4:
        del lines[h:]
    elif r == 5:
        lines = []
    elif r == 6:
        lines.insert(rnd.randrange(h + 1), rnd.choice(['1 2 0', '%', 'x', ' c x', '-1 0', '\tc']))
    elif r == 7:
        lines.append('')
    else:
        lines.insert(h + 1, rnd.choice(['-3 4', '1', '12 -1 10', '10 20', '100 -20']))
    return lines


def jobs(seed, thorough):
    rnd = random.Random(seed * 1013 + 18)
    k = 10 if thorough else 1
    js = []

    def job(name):
        js.append(Job(name))
        return js[-1]
    # every formula of up to three clauses on two variables, clauses of up to two literals
    lits = [(1, True), (1, False), (2, True), (2, False)]
    cl = [[]] + [[x] for x in lits] + [list(c) for c in itertools.product(lits, repeat=2)]
    fs = [[]] + [[c] for c in cl] + [list(f) for f in itertools.product(cl, repeat=2)]
    more = [list(f) for f in itertools.product(cl, repeat=3)]
    fs += more if thorough else rnd.sample(more, 600)
    for i in range(0, len(fs), 60):
        j = job('t%d' % i)
        for f in fs[i:i + 60]:
            j.solve(f)
    for i in range(110 * k):
        j = job('r%d' % i)
        for _ in range(8):
            n = rnd.choice([1, 2, 3, 4, 5, 6, 7, 8])
            kk = rnd.choice([(1, 2), (1, 3), (2, 2), (2, 3), (3, 3), (0, 3), (2, 4)])
            ratio = rnd.choice([1.5, 2, 3, 4.2, 5, 6])
            j.solve(randf(rnd, n, max(1, int(n * ratio)), *kk))
        f = randf(rnd, rnd.randint(3, 7), rnd.randint(4, 18), 1, 3)
        j.steps(f, lambda q: rnd.random() < 0.35 or q == len(f) - 1)
    for i in range(6 * k):
        j = job('s%d' % i)
        p = rnd.choice([(2, 1), (2, 2), (3, 2), (3, 3), (2, 3)])
        f = pigeons(*p)
        rnd.shuffle(f)
        j.solve(f)
        j.solve(parity(rnd, rnd.randint(2, 4), rnd.random() < 0.5))
        n = rnd.randint(5, 25)
        closed = rnd.random() < 0.5
        j.solve(chain(rnd, n, closed))
        # a solution planted
        n = rnd.randint(8, 12)
        sol = {v: rnd.random() < 0.5 for v in range(1, n + 1)}
        f = []
        for _ in range(int(n * 3)):
            vs = rnd.sample(range(1, n + 1), 3)
            c = [(v, rnd.random() < 0.5) for v in vs]
            if not any(sol[v] == b for v, b in c):
                c[0] = (c[0][0], sol[c[0][0]])
            f.append(c)
        j.solve(f, claim=True)
    for i in range(40 * k):
        j = job('p%d' % i)
        for _ in range(6):
            ls = dimacs(rnd, rnd.random() < 0.5)
            j.parselines(ls)
            j.parse('\n'.join(ls) + rnd.choice(['', '\n', '\n\n']))
            j.parselines([l + '\n' for l in ls])
        for _ in range(3):
            m = [(rnd.choice([rnd.randint(0, 12), rnd.randint(-5, 2000000)]), rnd.random() < 0.5) for _ in range(rnd.choice([0, 1, 2, 5]))]
            j.show(True, m)
            j.showf([m[:2], m][:rnd.randrange(3)])
        j.show(False, [])
    return js


def programs(c, rnd, exe, n):
    """Runs of the whole program: text in, answer and exit status out."""
    runs = []
    for i in range(n):
        ls = dimacs(rnd, rnd.random() < 0.75)
        if rnd.random() < 0.6:
            f = [[x for x in cl] for cl in randf(rnd, rnd.randint(1, 7), rnd.randint(1, 18), 0, 3)]
            f = [[((abs(v) or 77), b) for v, b in cl] for cl in f]
            ls = ['c x'] * rnd.randrange(2) + ['p cnf 7 9'] + [' '.join([('' if b else '-') + str(v) for v, b in cl] + ['0']) for cl in f]
        s = '\n'.join(ls) + rnd.choice(['\n', '\n', '\n', ''])
        runs.append((s, rnd.choice([None, None, '0', '1', '3', '4'])))

    def one(run):
        s, debug = run
        args = [exe, '-I', calc.DIRS[0], '-I', os.path.join(vt.REPO, 'pkgs/core'), '-I', os.path.join(vt.REPO, 'pkgs/sat'), '-m', '/Sat/Main%', '--'] + (['--debug', debug] if debug else [])
        try:
            r = subprocess.run(args, input=s.encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120, env=vt.clean_env(), cwd=c.scratch)
        except subprocess.TimeoutExpired:
            return 'timeout', b'', b''
        return r.returncode, r.stdout, r.stderr
    return runs, vt.pmap(one, runs)


def judge(c, exe, js, prog):
    res = calc.run(c, exe, '/Verif/SatDrive%', [(j.id, j.lines) for j in js])
    js = [h for h in js if h.id in res]
    f = os.path.join(c.scratch, 'sat.ndjson')
    n = 0
    with open(f, 'w') as o:
        for h in js:
            end, got = res[h.id]
            ops = []
            for j, op in enumerate(h.ops):
                if j >= len(got):
                    break
                if op is None:
                    if got[j] is None:
                        ops.append(dict(o='show', f=[], s=[], l=[], m=[], sat=False, out=[], j=j + 1, t='A', r=0))
                    continue
                r = got[j]
                if op['o'] in ('show', 'showf') and r is not None:
                    r = [x if isinstance(x, int) else ord(x) for x in r]
                ops.append(dict(op, j=j + 1, t='A' if r is None else 'V', r=0 if r is None else r))
            o.write(json.dumps(dict(id=h.id, ops=ops, end='ok' if end == 'ok' and len(got) == len(h.ops) else 'cut')) + '\n')
            n += 1
        for k, (run, did) in enumerate(zip(*prog)):
            op = dict(o='program', f=[], s=codes(run[0]), l=[], m=[], sat=False, out=list(did[1]), j=1, t='V', r=did[0] if isinstance(did[0], int) else 99)
            o.write(json.dumps(dict(id='prog%d' % k, ops=[op], end='ok')) + '\n')
            n += 1
    r = vt.tlc('SatTrace', 'SatTrace.cfg', env={'TRACE': f}, timeout=2500 if c.thorough else 600)
    c.add_tlc(r)
    out = r.tag('OUT')
    if len(out) != n:
        raise vt.CheckError('jobs not judged: %d of %d' % (len(out), n))
    return res, {b['id']: b['at'] for b in r.tag('BAD')}, sum(x['sat'] for x in out)


def body(c):
    exe = calc.build()
    info = vt.build('plain')
    stdio = os.path.join(os.path.dirname(exe), 'fble-stdio')
    js = jobs(c.seed, c.thorough)
    rnd = random.Random(c.seed * 1019 + 18)
    prog = programs(c, rnd, stdio, 600 if c.thorough else 48)
    by = {h.id: h for h in js}
    if len(by) != len(js):
        raise vt.CheckError('names')
    res, bad, nsat = judge(c, exe, js, prog)
    if bad:
        ks = [int(i[4:]) for i in bad if i.startswith('prog')]
        again = random.Random(c.seed * 1019 + 18)
        p2 = programs(c, again, stdio, 600 if c.thorough else 48) if ks else ([], [])
        res, bad2, _ = judge(c, exe, [by[i] for i in sorted(bad)[:6] if i in by], p2)
        bad = {i: at for i, at in bad2.items() if i in bad}
    for i, at in sorted(bad.items()):
        if i.startswith('prog'):
            k = int(i[4:])
            c.violation('the sat program: text %r, debug %s: exit %s, printed %r' % (prog[0][k][0][:200], prog[0][k][1], prog[1][k][0], prog[1][k][1][-200:].decode('latin-1')),
                        'fble-stdio -m /Sat/Main% with standard input:\n' + prog[0][k][0])
            continue
        h = by[i]
        end, got = res[i]
        what = 'job %s, operation %d%s: %s' % (i, at or len(got) + 1, '' if end == 'ok' else ' (%s)' % end,
                                              (h.ops[at - 1] or {'o': 'add'})['o'] if at else 'the computation ended early')
        c.violation(what, 'module /Verif/SatDrive%% (harness/fble), harness/valcalc.c, job:\nJ %s\n%s\n\nresults:\n%s\n' % (
            i, '\n'.join(h.lines), '\n'.join(map(str, got))))
    ops = {}
    for h in js:
        for op in h.ops:
            if op:
                ops[op['o']] = ops.get(op['o'], 0) + 1
    ops['program'] = len(prog[0])
    c.cov['operations'] = ops
    c.cov['traces_validated_against_impl'] = len(js) + len(prog[0])
    c.cov['samples'] = sum(ops.values())
    c.cov['satisfiable'] = nsat
    if not bad and not (0.15 * ops['solve'] < nsat < 0.85 * ops['solve']):
        raise vt.CheckError('formulas are one-sided: %d of %d satisfiable' % (nsat, ops['solve']))
    mc = vt.tlc('SatMC', 'SatMCThorough.cfg' if c.thorough else 'SatMC.cfg', timeout=1500)
    c.add_tlc(mc)


if __name__ == '__main__':
    sys.exit(vt.main('C18', body))
