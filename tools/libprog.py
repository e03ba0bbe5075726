"""The modules of the packages in /repo as programs, as they are and with small changes."""
import os, random, re, shutil, subprocess
import vt, fble, fblegen

TOKEN = re.compile(r"#[^\n]*\n?|\s+|'(?:[^']|'')*'[@%]?|[^\s'#" + re.escape(''.join(fblegen.PUNCT)) + r"]+[@%]?|.", re.S)


def tokens(text):
    return [t for t in TOKEN.findall(text) if not t.isspace() and t[0] != '#']


def modules(c, limit=12000):
    """[(path words, [(path words, text)])] of the modules whose text, with that of all they load, has at most limit bytes."""
    info = vt.build('plain')
    top = os.path.join(c.scratch, 'packages')
    rels = []
    for p in sorted(os.listdir(os.path.join(vt.REPO, 'pkgs'))):
        d = os.path.join(vt.REPO, 'pkgs', p)
        if not os.path.isdir(d):
            continue
        for x in sorted(os.listdir(d)):
            if x[0].isupper() and x.endswith('.fble'):
                os.makedirs(top, exist_ok=True)
                shutil.copy(os.path.join(d, x), top)
            elif x[0].isupper() and os.path.isdir(os.path.join(d, x)):
                shutil.copytree(os.path.join(d, x), os.path.join(top, x), dirs_exist_ok=True)
    for d, _, fs in sorted(os.walk(top)):
        rels += [os.path.relpath(os.path.join(d, f), top)[:-5].split('/') for f in sorted(fs) if f.endswith('.fble')]

    def read(rel):
        with open(os.path.join(top, *rel) + '.fble', encoding='latin-1') as f:
            return f.read()

    def one(rel):
        r = subprocess.run([info['bin']('fble-deps'), '-t', 'x', '-I', top, '-m', fble.modref(rel)], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                           env=vt.clean_env())
        names = {x for x in r.stdout.decode('latin-1').replace('\\\n', ' ').split() if x.endswith('.fble') and os.path.exists(x)}
        deps = [os.path.relpath(x, top)[:-5].split('/') for x in sorted(names)]
        fs = [(x, read(x)) for x in deps if x != rel] + [(rel, read(rel))]
        return rel, fs
    out = [x for x in vt.pmap(one, rels) if sum(len(t) for _, t in x[1]) <= limit]
    shutil.rmtree(top)
    if len(out) < 20:
        raise vt.CheckError('only %d modules of at most %d bytes' % (len(out), limit))
    return out


def under(pre, toks):
    """The tokens (white space and comments among them or not) with module paths moved below a directory."""
    out, word = [], False
    for k, t in enumerate(toks):
        blank = t.isspace() or t[0] == '#'
        if t == '/' and not word:
            out += ['/', pre]
        out.append(t)
        if not blank:
            word = fblegen.isword(t) and t[-1] not in '@%'
    return out


def repeat(toks, r):
    """One of the definitions written twice, the second time usually with another name."""
    eq = [i for i in range(1, len(toks) - 1) if toks[i] == '=' and fblegen.isword(toks[i - 1]) and toks[i - 1][-1] not in '@%']
    if not eq:
        return toks
    i = r.choice(eq)
    a, d = i - 1, 0
    while a > 0 and not (d == 0 and toks[a - 1] in ('{', ';', ',', '(')):
        a -= 1
        d += (toks[a] in ')}]>') - (toks[a] in '({[<')
    b, d = i + 1, 0
    while b < len(toks) and not (d == 0 and toks[b] in ('}', ';', ',', ')')):
        d += (toks[b] in '({[') - (toks[b] in ')}]')
        b += 1
    copy = list(toks[a:b])
    copy[i - 1 - a] = r.choice(['again', 'again', '_again', copy[i - 1 - a]])
    at = r.choice([(a, copy + [r.choice(';;,')]), (b, [r.choice(';;,')] + copy)])
    return toks[:at[0]] + at[1] + toks[at[0]:]


def program(pid, mod, seed=None, changes=0, fuel=0, names=False):
    """The module, with a number of small changes to it, as a program of its own."""
    rel, fs = mod
    pre = 'L%d' % pid
    out = [([pre] + p, ''.join(under(pre, TOKEN.findall(t)))) for p, t in fs]
    if changes:
        r = random.Random(seed)
        toks = tokens(fs[-1][1])
        for _ in range(changes):
            toks = repeat(toks, r) if names else fblegen.mutate(toks, r, ['x1'], r.random() < .85)
        out[-1] = ([pre] + rel, fblegen.layout(under(pre, toks), r, 0))
    return dict(id=pid, fuel=fuel, main=[pre] + rel, fs=out)


def mutants(c, n, seed, first=0, limit=12000, names=False):
    ms = modules(c, limit)
    r = random.Random(seed)
    return [program(first + i, r.choice(ms), seed * 1000003 + i, r.choice([1, 1, 1, 2]), names=names) for i in range(n)]
