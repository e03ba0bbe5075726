"""What the checks of language properties share: programs, their specified outcomes, runs, verdicts."""
import collections, json, os, random
import vt, fble, fblegen


def program(pid, seed, opts=None, style=None, fuel=600, mutate=0, keep=False):
    """A random program.  style: see fblegen.layout; mutate: number of small changes to its tokens."""
    r = random.Random(seed)
    ms = fblegen.Gen(r, pid, opts).program()
    for _ in range(mutate):
        k = r.randrange(len(ms))
        p, t = ms[k]
        ms[k] = (p, fblegen.mutate(t, r, ['x1'], keep))
    st = style if style is not None else (1 if r.random() < .2 else 0)
    return dict(id=pid, fuel=fuel, main=ms[-1][0], fs=[(p, fblegen.layout(t, r, st)) for p, t in ms])


def replay(g, exp, got, root):
    out = ['main module: %s' % fble.modname(g['main']), '']
    for p, t in g['fs']:
        out += ['---- %s.fble' % '/'.join(p), t]
    out += ['---- specified', json.dumps({k: v for k, v in exp.items() if k not in ('p', 'ord')})[:3000],
            '---- observed', json.dumps({k: v for k, v in got.items() if k not in ('P', 'ord')})[:3000]]
    return '\n'.join(out)


class Suite:
    """Programs under one root, and what is specified of each."""

    def __init__(self, c, progs, tag='p', timeout=800):
        self.c, self.progs, self.tag = c, progs, tag
        self.root = os.path.join(c.scratch, 'root' + tag)
        fble.put(self.root, progs)
        self.exp = fble.specify(c, progs, timeout=timeout, tag=tag)
        n = collections.Counter(o['o'] for o in self.exp.values())
        for k, v in n.items():
            c.cov['programs_' + k] = c.cov.get('programs_' + k, 0) + v
        c.cov['samples'] += len(progs)
        self.n = n

    def judge(self, mode, exe, progs, res, what, flags):
        bad = 0
        for g in progs:
            e = self.exp[g['id']]
            m = fble.compare(g, e, res[g['id']], self.root, what, mode)
            if not m:
                continue
            bad += 1
            if bad > 8:
                break
            again = fble.run(self.c, exe, self.root, [fble.jobline(g, e, flags)])[g['id']]
            m2 = fble.compare(g, e, again, self.root, what, mode)
            if not m2:
                raise vt.CheckError('not reproducible: %s' % m)
            self.c.violation(m2, replay(g, e, again, self.root))
        self.c.cov['traces_validated_against_impl'] += len(progs)

    def interpret(self, variant, what, flags='-', progs=None):
        progs = self.progs if progs is None else progs
        info = vt.build(variant)
        exe = vt.harness(info, 'fblerun', ['fblerun.c'])
        res = fble.run(self.c, exe, self.root, [fble.jobline(g, self.exp[g['id']], flags) for g in progs])
        self.judge('interpreted' + ('' if variant == 'plain' else ', ' + variant), exe, progs, res, what, flags)
        return res

    def compiled(self, variant, what, flags='p', arm=None):
        info = vt.build(variant)
        ps = [g for g in self.progs if self.exp[g['id']]['o'] in ('value', 'abort')]
        exe, rec, bad = fble.compile_all(self.c, info, ps, self.root, tag=self.tag, arm=arm)
        lang = 'C' if arm is None else 'aarch64'
        for g in ps:
            i = g['id']
            if rec[i]['R'] != 'compiled' or rec[i]['X'] != 0:
                self.c.violation('generating %s code: %s, wait status %s: %s' % (lang, rec[i]['R'], rec[i]['X'], rec[i]['E'][-200:]),
                                 replay(g, self.exp[i], rec[i], self.root))
            elif i in bad:
                self.c.violation('the generated %s code does not compile: %s' % (lang, bad[i][-300:]),
                                 replay(g, self.exp[i], rec[i], self.root) + '\n---- gcc\n' + bad[i])
        ps = [g for g in ps if rec[g['id']]['R'] == 'compiled' and rec[g['id']]['X'] == 0 and g['id'] not in bad]
        res = fble.run(self.c, exe, self.root, [fble.jobline(g, self.exp[g['id']], flags) for g in ps])
        self.judge('compiled', exe, ps, res, what, flags)
        self.exe = exe, ps
        return res

    def compiled_again(self, what, flags):
        exe, ps = self.exe
        res = fble.run(self.c, exe, self.root, [fble.jobline(g, self.exp[g['id']], flags) for g in ps])
        self.judge('compiled', exe, ps, res, what, flags)

    def wrong(self, g):
        """The lines of a program of one small expression per line that have an error; None if one is in what goes before them."""
        e = self.exp[g['id']]
        main = len(g['fs']) * fble.BIG
        if e['o'] != 'rejected':
            return set()
        ls = {l % fble.BIG // 1000 for l in e['er'] if l >= main}
        if min(e['er']) < main or min(ls) < g['first']:
            return None
        return ls

    def lines(self, variant, progs=None):
        """The type checker on such programs: an error in each line that has one, and in no other."""
        progs = self.progs if progs is None else progs
        info = vt.build(variant)
        exe = vt.harness(info, 'fblerun', ['fblerun.c'])

        def differs(g, got):
            e = self.exp[g['id']]
            m = fble.compare(g, e, got, self.root, {'static', 'where'}, 'type checker, ' + variant)
            want = self.wrong(g)
            if m or not want:
                return m
            main = len(g['fs']) * fble.BIG
            have = {x[1] % fble.BIG // 1000 for x in fble.messages(got['E'], g, self.root) if x[0] == 'error' and x[1] and x[1] >= main}
            miss = sorted(want - have)
            if miss:
                return 'type checker, %s: no error is reported at line %d: %s' % (variant, miss[0], g['fs'][-1][1].split('\n')[miss[0] - 1])

        res = fble.run(self.c, exe, self.root, [fble.jobline(g, self.exp[g['id']], '-') for g in progs])
        bad = 0
        for g in progs:
            m = differs(g, res[g['id']])
            if not m:
                continue
            bad += 1
            if bad > 8:
                break
            again = fble.run(self.c, exe, self.root, [fble.jobline(g, self.exp[g['id']], '-')])[g['id']]
            if not differs(g, again):
                raise vt.CheckError('not reproducible: %s' % m)
            self.c.violation(m, replay(g, self.exp[g['id']], again, self.root))
        self.c.cov['traces_validated_against_impl'] += len(progs)

    def need(self, **kw):
        """The corpus has at least these shares of each outcome, in percent."""
        if self.c.violations:
            return
        for k, v in kw.items():
            if self.n[k] * 100 < v * len(self.progs):
                raise vt.CheckError('vacuous corpus: %s' % dict(self.n))
