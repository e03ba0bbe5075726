"""Runs the tests of the language definition (/repo/spec/SpecTests) through the TLA+ specification: does it say what they
expect?  Run by hand: it checks the specification, not the implementation."""
import os, re, subprocess, sys
import vt, lang, fble


def body(c):
    info = vt.build('plain')
    top = os.path.join(vt.REPO, 'spec')
    ps, want = [], {}
    for d, _, fs in sorted(os.walk(os.path.join(top, 'SpecTests'))):
        for f in sorted(fs):
            rel = os.path.relpath(os.path.join(d, f), top)[:-5].split('/')
            text = open(os.path.join(d, f), encoding='latin-1').read()
            m = re.search(r'@@fble-test@@ (\S+)(?: (\S+))?', text)
            if not m or m.group(1) == 'none':
                continue
            out = subprocess.run([info['bin']('fble-deps'), '-t', 'x', '-I', top, '-m', fble.modref(rel)], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL).stdout
            deps = [os.path.relpath(x, top)[:-5].split('/') for x in sorted(set(out.decode('latin-1').replace('\\\n', ' ').split())) if x.endswith('.fble') and os.path.exists(x)]
            mods = [x for x in deps if x != rel] + [rel]
            i = len(ps)
            ps.append(dict(id=i, fuel=3000, main=rel, fs=[(x, open(os.path.join(top, *x) + '.fble', encoding='latin-1').read()) for x in mods]))
            want[i] = m.groups()
    s = lang.Suite(c, ps, timeout=3000)
    n = {}
    for g in ps:
        e, w = s.exp[g['id']], want[g['id']]
        got = {'value': 'no-error', 'abort': 'runtime-error'}.get(e['o'], 'compile-error' if e['o'] in ('rejected', 'unloadable') else e['o'])
        n[(w[0], e['o'])] = n.get((w[0], e['o']), 0) + 1
        if got != w[0]:
            print('/'.join(g['main']), w, e['o'], str(e)[:200])
    print(n)
    s.interpret('plain', {'outcome', 'abort', 'static', 'where'}, 'p')


if __name__ == '__main__':
    sys.exit(vt.main('SPEC', body))
