"""Shared plumbing: building the code under test from /repo, running TLC, verdicts, evidence."""
import hashlib, json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get('VERIF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(VERIF, 'build')
SPEC = os.path.join(VERIF, 'spec')
HARNESS = os.path.join(VERIF, 'harness')
JAR = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
NPROC = os.cpu_count() or 4


class CheckError(Exception):
    """The check itself could not give an answer (error exit, never a verdict)."""


def sh(cmd, **kw):
    kw.setdefault('stdout', subprocess.PIPE)
    kw.setdefault('stderr', subprocess.STDOUT)
    r = subprocess.run(cmd, **kw)
    return r


def must(cmd, **kw):
    r = sh(cmd, **kw)
    if r.returncode != 0:
        out = r.stdout.decode('utf-8', 'replace') if r.stdout else ''
        raise CheckError('command failed (%d): %s\n%s' % (r.returncode, ' '.join(map(str, cmd)), out[-4000:]))
    return r


def pmap(f, xs, n=None):
    with ThreadPoolExecutor(n or NPROC) as ex:
        return list(ex.map(f, xs))


# ---------------------------------------------------------------- building

def _hash(paths, extra=''):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, 'rb') as f:
            h.update(f.read())
    return h.hexdigest()[:20]


def _glob(d, exts):
    if not os.path.isdir(d):
        return []
    return sorted(os.path.join(d, x) for x in os.listdir(d) if os.path.splitext(x)[1] in exts)


VARIANTS = {
    'plain': ['-O1', '-g'],
    'asan': ['-O1', '-g', '-fsanitize=address,undefined', '-fno-sanitize-recover=undefined', '-fno-sanitize=vla-bound,shift,signed-integer-overflow,nonnull-attribute',
             '-fno-omit-frame-pointer'],
}
CFLAGS = ['-std=c99', '-w']


def build(variant='plain'):
    """Compiles /repo's C sources out of tree.  Returns a dict of paths and flags.

    lib/*.c (+ the bison parser) -> libfble.a; fbld/*.c -> fbld objects; bin/*.c, test/*.c, pkgs/core/*.c.
    """
    dirs = ['lib', 'include/fble', 'fbld', 'bin', 'test', 'pkgs/core']
    srcs = []
    for d in dirs:
        srcs += _glob(os.path.join(REPO, d), {'.c', '.h', '.y', '.tcl'})
    key = _hash(srcs, variant + ' '.join(VARIANTS[variant] + CFLAGS) + open(__file__).read())
    out = os.path.join(BUILD, variant)
    info = dict(dir=out, flags=CFLAGS + VARIANTS[variant] +
                ['-I', os.path.join(REPO, 'include'), '-I', os.path.join(out, 'gen')],
                variant=variant,
                libfble=os.path.join(out, 'libfble.a'), libfbld=os.path.join(out, 'libfbld.a'),
                libtest=os.path.join(out, 'libfbletest.a'), libcore=os.path.join(out, 'libfblecore.a'),
                bin=lambda n: os.path.join(out, 'bin', n))
    stamp = os.path.join(out, 'stamp')
    if os.path.exists(stamp) and open(stamp).read() == key:
        return info
    shutil.rmtree(out, ignore_errors=True)
    gen = os.path.join(out, 'gen')
    os.makedirs(gen)
    os.makedirs(os.path.join(out, 'bin'))
    os.makedirs(os.path.join(out, 'o'))
    with open(os.path.join(gen, 'config.h'), 'w') as f:
        f.write('#ifndef VT_CONFIG_H\n#define VT_CONFIG_H\n')
        for n in ['BINDIR', 'BUILDDIR', 'DATADIR', 'DOCDIR', 'INCLUDEDIR', 'LIBDIR', 'MANDIR', 'PREFIX', 'SRCDIR',
                  'ENABLE_FBLE_APP', 'GL_CFLAGS', 'GL_LIBS', 'LDFLAGS', 'SDL_CFLAGS', 'SDL_LIBS']:
            f.write('#define FBLE_CONFIG_%s "%s"\n' % (n, '/nonexistent/' + n.lower()))
        f.write('#endif\n')
    # usage texts are documentation: every usage header the sources include becomes a stub.
    for s in srcs:
        if s.endswith('.c'):
            for m in re.findall(r'#include\s+"([\w.-]+\.usage\.h)"', open(s, errors='replace').read()):
                with open(os.path.join(gen, m), 'w') as f:
                    f.write('static const unsigned char fbldUsageHelpText[] = "usage\\n";\n')
    # buildstamp and version objects are normally generated from git.
    with open(os.path.join(gen, 'buildstamp.c'), 'w') as f:
        f.write('const char* FbleBuildStamp = "verif";\n')
    jobs = []

    def obj(name, src, inc):
        o = os.path.join(out, 'o', name + '.o')
        jobs.append((o, ['gcc'] + info['flags'] + inc + ['-c', '-o', o, src]))
        return o
    ptab = os.path.join(gen, 'parse.tab.c')
    must(['bison', '-o', ptab, os.path.join(REPO, 'lib/parse.y')])
    libinc = ['-I', os.path.join(REPO, 'lib')]
    lib = [obj('lib.' + os.path.basename(s), s, libinc) for s in _glob(os.path.join(REPO, 'lib'), {'.c'})]
    lib.append(obj('lib.parse.tab.c', ptab, libinc))
    lib.append(obj('lib.buildstamp.c', os.path.join(gen, 'buildstamp.c'), []))
    fb, fbmain = [], []
    for s in _glob(os.path.join(REPO, 'fbld'), {'.c'}):
        (fbmain if os.path.basename(s) == 'fbld.c' else fb).append(obj('fbld.' + os.path.basename(s), s, []))
    bins, tmains, tests, core = {}, {}, [], []
    for s in _glob(os.path.join(REPO, 'bin'), {'.c'}):
        bins[os.path.basename(s)[:-2]] = obj('bin.' + os.path.basename(s), s, [])
    for s in _glob(os.path.join(REPO, 'test'), {'.c'}):
        b = os.path.basename(s)
        if b == 'fble-profile-test.c':
            continue
        o = obj('test.' + b, s, [])
        if b.startswith('fble-'):
            tmains[b[:-2]] = o
        else:
            tests.append(o)
    for s in _glob(os.path.join(REPO, 'pkgs/core'), {'.c'}):
        b = os.path.basename(s)
        o = obj('core.' + b, s, [])
        if b == 'fble-stdio.c':
            tmains['fble-stdio'] = o
        else:
            core.append(o)

    def run(j):
        must(j[1])
    pmap(run, jobs)
    must(['ar', 'rcs', info['libfble']] + lib)
    must(['ar', 'rcs', info['libfbld']] + fb)
    must(['ar', 'rcs', info['libtest']] + tests)
    must(['ar', 'rcs', info['libcore']] + core)
    links = []
    for n, o in bins.items():
        links.append(['-o', info['bin'](n), o, info['libfble']])
    for n, o in tmains.items():
        links.append(['-o', info['bin'](n), o, info['libtest'], info['libcore'], info['libfble']])
    links.append(['-o', info['bin']('fbld')] + fbmain + [info['libfbld']])
    pmap(lambda l: must(['gcc'] + VARIANTS[variant] + l), links)
    with open(stamp, 'w') as f:
        f.write(key)
    return info


def harness(info, name, srcs, libs=('libcore', 'libfble'), inc=(), flags=()):
    """Compiles a /verif/harness program against the build in info."""
    out = os.path.join(info['dir'], 'bin', name)
    srcs = [os.path.join(HARNESS, s) for s in srcs]
    must(['gcc'] + info['flags'] + list(flags) + ['-I', HARNESS] + [x for i in inc for x in ('-I', i)] +
         ['-o', out] + srcs + [info[l] for l in libs] + ['-lm'])
    return out


# ---------------------------------------------------------------- TLC

class TlcResult:
    def __init__(self, rc, out, wall):
        self.rc, self.out, self.wall = rc, out, wall
        m = re.findall(r'(\d+) states generated, (\d+) distinct states found', out)
        self.generated, self.distinct = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        if not m:
            m = re.findall(r'(\d+) states checked', out)
            self.generated = self.distinct = int(m[-1]) if m else 0
        # values printed by the specification as <<"TAG", "json">>
        self.tagged = []
        for t, s in re.findall(r'^<<"([A-Z]+)", (".*")>>$', out, re.M):
            try:
                self.tagged.append((t, json.loads(json.loads(s))))
            except Exception:
                self.tagged.append((t, s))

    def tag(self, t):
        return [v for k, v in self.tagged if k == t]


def tlc(module, cfg, env=None, timeout=600, args=(), workers=None, mem='8g', stack='512m', ok=(0,)):
    """Runs TLC on spec/<module>.tla with spec/<cfg>.  Raises CheckError unless the exit code is in ok."""
    meta = tempfile.mkdtemp(prefix='tlcmeta')
    e = dict(os.environ)
    e.update(env or {})
    cmd = ['java', '-XX:+UseParallelGC', '-Xss' + stack, '-Xmx' + mem, '-cp', JAR, 'tlc2.TLC',
           '-metadir', meta, '-noGenerateSpecTE', '-workers', str(workers or NPROC),
           '-config', os.path.join(SPEC, cfg)] + list(args) + [os.path.join(SPEC, module + '.tla')]
    t = time.time()
    try:
        r = subprocess.run(cmd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, cwd=SPEC)
    except subprocess.TimeoutExpired:
        raise CheckError('TLC timed out after %ds on %s/%s' % (timeout, module, cfg))
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    res = TlcResult(r.returncode, r.stdout.decode('utf-8', 'replace'), time.time() - t)
    if ok is not None and res.rc not in ok:
        raise CheckError('TLC exit %d on %s/%s\n%s' % (
            res.rc, module, cfg, '\n'.join(l for l in res.out.split('\n') if not l.startswith('<<'))[-6000:]))
    return res


# ---------------------------------------------------------------- verdicts

class Check:
    def __init__(self, prop, level='model_checking'):
        self.prop, self.level = prop, level
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        if len(sys.argv) > 2 and sys.argv[2] in ('quick', 'thorough'):
            self.tier = sys.argv[2]
        self.seed = int(os.environ.get('VERIF_SEED', '1') or '1')
        self.t0 = time.time()
        self.cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=0)
        self.notes = []
        self.violations = []
        self.scratch = tempfile.mkdtemp(prefix='vt%s' % prop)
        self.known = load_known(prop)

    @property
    def thorough(self):
        return self.tier == 'thorough'

    def add_tlc(self, r):
        self.cov['states'] += r.distinct
        self.cov['transitions'] += r.generated

    def violation(self, what, replay):
        """what: one line; replay: text that reproduces the failure."""
        self.violations.append((what, replay))

    def finish(self):
        d = os.path.join(VERIF, 'evidence')
        os.makedirs(d, exist_ok=True)
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=self.level,
                  coverage=self.cov, wall_s=round(time.time() - self.t0, 2))
        if self.notes:
            ev['notes'] = self.notes
        with open(os.path.join(d, self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        shutil.rmtree(self.scratch, ignore_errors=True)
        for k in self.known:
            if k.get('seen'):
                print('KNOWN-FINDING: property=%s %s' % (self.prop, k['what']))
        if not self.violations:
            print('OK property=%s %s' % (self.prop, json.dumps(self.cov)))
            return 0
        rd = os.path.join(BUILD, 'replay')
        os.makedirs(rd, exist_ok=True)
        for i, (what, replay) in enumerate(self.violations[:5]):
            path = os.path.join(rd, '%s-%d.txt' % (self.prop, i))
            with open(path, 'w') as f:
                f.write('property %s: %s\n\n%s\n' % (self.prop, what, replay))
            print('  ' + what[:600])
            print('VIOLATION property=%s replay=%s' % (self.prop, path))
        return 1


def load_known(prop):
    res = []
    p = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r'known: property=(\S+) id=(\S+) (.*)', line.strip())
            if m and m.group(1) == prop:
                res.append(dict(id=m.group(2), what=m.group(3), seen=False))
    return res


def main(prop, body, level='model_checking'):
    c = Check(prop, level)
    try:
        body(c)
        rc = c.finish()
    except CheckError as e:
        shutil.rmtree(c.scratch, ignore_errors=True)
        print('CHECK-ERROR property=%s %s' % (prop, e))
        rc = 3
    sys.stdout.flush()
    return rc


def clean_env(**kw):
    e = {'MALLOC_PERTURB_': '85', 'PATH': '/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin', 'LANG': 'C.UTF-8', 'LC_ALL': 'C.UTF-8',
         'HOME': '/root', 'ASAN_OPTIONS': 'detect_leaks=1:abort_on_error=1:symbolize=0:allocator_may_return_null=1',
         'UBSAN_OPTIONS': 'print_stacktrace=1'}
    e.update(kw)
    return e
