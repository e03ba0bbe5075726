"""C15: fbld texts denote the documented structure (FbldSyntax.tla)."""
import itertools, json, os, random, re, struct, subprocess, sys
import vt

WORDS = ['a', 'foo', 'b1', 'x_', 'B']
CH = list('@@ab \n\n[]{}\\n.')


class G:
    def __init__(self, rng):
        self.r = rng

    def inline(self, d, ctx):
        r = self.r
        out = []
        for _ in range(r.choice([0, 1, 1, 2, 3])):
            x = r.random()
            if x < 0.35 or d <= 0:
                out.append(r.choice(['t', 'ab ', ' ', '{', '}', 'x y', '.', 'w"%']))
            elif x < 0.45:
                out.append('\\' + r.choice('@[]\\nn'))
            elif x < 0.5:
                out.append('\n' if ctx != 'line' else ' @')
            elif x < 0.85:
                out.append('@' + r.choice(WORDS) + self.args(d - 1) + r.choice(['', ' ', '.']))
            elif x < 0.9:
                out.append(r.choice(['@ ', ' @', '@@', '@', '\\q']) if r.random() < 0.3 else 'q')
            else:
                out.append('@' + r.choice(WORDS) + self.args(d - 1))
        return ''.join(out)

    def lit(self, d):
        r = self.r
        return ''.join(r.choice(['a', '@x', '\\', '[', ']', '\n', ' ', '{b}', '{', '}' if r.random() < 0.2 else '{}'])
                       for _ in range(r.choice([0, 1, 2, 3])))

    def args(self, d):
        r = self.r
        return ''.join('[%s]' % self.inline(d, 'arg') if r.random() < 0.7 else '{%s}' % self.lit(d)
                       for _ in range(r.choice([0, 0, 1, 1, 2])))

    def ind(self, text, n=1):
        return ''.join((' ' * n + l if l.strip('\n') or self.r.random() < 0.2 else l) for l in text.splitlines(True))

    def command(self, d):
        r = self.r
        s = '@' + r.choice(WORDS)
        for k in range(r.choice([1, 1, 1, 2, 3])):
            if k:
                s += '@'
            a = self.args(d - 1)
            s += a
            tail = r.random()
            if r.random() < 0.35:
                s += ' ' + self.inline(d - 1, 'line').replace('\n', '')
            if tail < 0.08 and d > 0:
                return s + ' @@\n' + self.block(d - 1)
            if tail < 0.25:
                s += ' @\n' + self.ind(''.join(r.choice(['x\n', '\n', ' y@z\n', '\\[\n', '  w\n']) for _ in range(r.choice([0, 1, 2, 3, 4]))))
            else:
                s += '\n'
            if tail > 0.5 and d > 0:
                s += self.ind(self.block(d - 1), r.choice([1, 1, 1, 1, 2]))
            if tail > 0.95 and d > 0:
                return s + '@@\n' + self.block(d - 1)
        return s

    def block(self, d):
        r = self.r
        out = ''
        for _ in range(r.choice([0, 1, 1, 2, 3])):
            x = r.random()
            if x < 0.55:
                out += self.command(d)
            elif x < 0.65:
                out += '@@' + r.choice(WORDS) + self.inline(d - 1, 'para') + '\n'
            elif x < 0.9:
                out += r.choice('ab.') + self.inline(d - 1, 'para') + '\n'
            else:
                out += r.choice(['\n', ' \n', '  x\n'])
            if r.random() < 0.5:
                out += r.choice(['\n', '\n', '\n\n', ' \n'])
        return out

    def doc(self):
        r = self.r
        t = self.block(r.choice([1, 2, 3]))
        if r.random() < 0.3:
            for _ in range(r.choice([1, 1, 2, 4])):
                i = r.randrange(len(t) + 1)
                x = r.random()
                if x < 0.4:
                    t = t[:i] + r.choice(CH) + t[i:]
                elif x < 0.7:
                    t = t[:i] + t[i + 1:]
                else:
                    t = t[:i] + r.choice(CH) + t[i + 1:]
        return t


def split_files(t, r):
    """Splits a document into input files at line ends."""
    ls = t.splitlines(True)
    if r.random() < 0.7 or len(ls) < 2:
        return [t]
    cuts = sorted(r.sample(range(0, len(ls) + 1), r.choice([1, 2])))
    parts, prev = [], 0
    for x in cuts + [len(ls)]:
        parts.append(''.join(ls[prev:x]))
        prev = x
    return parts


def lines(files):
    out = []
    for f, t in enumerate(files):
        if t is None:
            continue
        for k, l in enumerate(t.split('\n')):
            last = k == t.count('\n')
            if last and l == '':
                continue
            out.append(dict(s=l if last else l + '\n', f=f, l=k + 1, c=1))
    return out


def canon(m):
    """Items of a markup: nested sequences flattened, adjacent text merged, empty text dropped."""
    out = []

    def go(x):
        if x['t'] == 's':
            for y in x['m']:
                go(y)
        elif x['t'] == 'p':
            if x['s']:
                if out and out[-1]['t'] == 'p':
                    out[-1]['s'] += x['s']
                else:
                    out.append(dict(t='p', s=x['s']))
        else:
            f = int(re.search(r'f(\d+)$', x['f']).group(1)) if x['n'] != '.block' else 0
            l = [f] + x['l'] if x['n'] != '.block' else [0, 0, 0]
            out.append(dict(t='c', n=x['n'], l=l, a=[canon(a) for a in x['a']]))
    go(m)
    return out


def run(exe, docs, scratch, nproc):
    per = (len(docs) + nproc - 1) // nproc

    def chunk(k):
        part = docs[k * per:(k + 1) * per]
        d = os.path.join(scratch, 'w%d' % k)
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, 'docs'), 'wb') as f:
            for files in part:
                f.write(struct.pack('<I', len(files)))
                for t in files:
                    if t is None:
                        f.write(b'\xff\xff\xff\xff')
                        continue
                    b = t.encode()
                    f.write(struct.pack('<I', len(b)) + b)
        r = subprocess.run([exe, os.path.join(d, 'docs'), d], stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=vt.clean_env())
        out = r.stdout.decode().split('\n')[:-1]
        if r.returncode != 0 or len(out) != len(part):
            raise vt.CheckError('fbldparse harness: rc=%s, %d of %d' % (r.returncode, len(out), len(part)))
        res = []
        for o in out:
            o = json.loads(o)
            err = bytes.fromhex(o['err']).decode('latin-1')
            errs = [[int(a), int(b), int(c)] for a, b, c in re.findall(r'/f(\d+):(\d+):(\d+): error: ', err)]
            res.append(dict(rc=o['rc'], m=canon(o['m']) if o['m'] else [], errs=errs, raw=err))
        return res
    return [x for p in vt.pmap(chunk, range(nproc), nproc) for x in p]


def body(c):
    rng = random.Random(c.seed * 7919 + 15)
    g = G(rng)
    n = 60000 if c.thorough else 8000
    docs = []
    while len(docs) < n:
        t = g.doc()
        if len(t) <= 160:
            d = split_files(t, rng)
            if rng.random() < .03:      # an input file that is not there
                d.insert(rng.randrange(len(d) + 1), None)
            docs.append(d)
    sampled = len(docs)
    # every text of at most 5 (thorough: 6) characters over the characters that matter to the syntax
    k = 6 if c.thorough else 5
    for m in range(k + 1):
        docs += [[''.join(x)] for x in itertools.product('@a \n[]{}\\', repeat=m)]
    # every command spelling around one command: continuation, literal and final arguments
    pre, post = ['@a', '@a[x]', '@a y', '@a\n z'], ['', '\n', '@\n', '@ u\n', '@[v]\n', '@@\n', ' @\n', ' @@\n', ' w\n', 'q\n']
    for p in pre:
        for x in itertools.product(['\n', ' @\n', ' @@\n', ' \n', '{l}\n'], post, post):
            docs.append([p + ''.join(x)])
    infos = [(vt.build('asan'), range(sampled)), (vt.build('plain'), range(sampled, len(docs)))]
    res = [None] * len(docs)
    exes = []
    for info, idx in infos:
        exe = vt.harness(info, 'fbldparse', ['fbldparse.c'], libs=('libfbld',), inc=(vt.REPO,))
        exes.append(exe)
        for q, r in zip(idx, run(exe, [docs[q] for q in idx], c.scratch, vt.NPROC)):
            res[q] = r
    path = os.path.join(c.scratch, 'docs.ndjson')
    with open(path, 'w') as f:
        for q, (d, r) in enumerate(zip(docs, res)):
            ls = lines(d)
            f.write(json.dumps(dict(id=q, lines=ls, nl=max([x['l'] for x in ls] or [1]), gone=None in d, said=r['raw'] != '', rc=r['rc'], m=r['m'], errs=r['errs'])) + '\n')
    t = vt.tlc('FbldSyntaxTrace', 'FbldSyntaxTrace.cfg', env={'DOCS': path}, args=['-continue'], ok=(0, 12),
               timeout=3000 if c.thorough else 600)
    c.add_tlc(t)
    good = sum(1 for r in res[:sampled] if r['rc'] == 0)
    c.cov.update(traces_validated_against_impl=len(docs), samples=sampled, exhaustive_texts=len(docs) - sampled, sampled_accepted=good)
    seen = {}
    for mm in t.tag('MISMATCH'):
        seen.setdefault(mm['id'], mm)
    for q in sorted(seen)[:5]:
        exe = exes[0] if q < sampled else exes[1]
        again = run(exe, [docs[q]], c.scratch, 1)[0]
        if (again['rc'], again['m'], again['errs']) != (res[q]['rc'], res[q]['m'], res[q]['errs']):
            raise vt.CheckError('not reproducible: %r' % docs[q])
        c.violation('text %r: rc=%s structure %s errors %s; specified %s' %
                    (docs[q], again['rc'], json.dumps(again['m'])[:300], again['errs'], json.dumps(seen[q]['exp'])[:400]),
                    'input files: %r\nparser: rc=%s\n%s\n%s\nspecified: %s' %
                    (docs[q], again['rc'], json.dumps(again['m']), again['raw'], json.dumps(seen[q]['exp'])))
    if t.rc == 12 and not seen:
        raise vt.CheckError('TLC reported a violation without a mismatch\n' + t.out[-3000:])
    if not seen and not (sampled // 4 < good < sampled):
        raise vt.CheckError('vacuous corpus: %d of %d accepted' % (good, sampled))


if __name__ == '__main__':
    sys.exit(vt.main('C15', body))
