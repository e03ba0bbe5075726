"""Parses reports of the profiler."""
import re

CALL = {b: re.compile(r'^(\*\*|  ) +(\d+) +(\d+) %s  (.*)\[([0-9a-fA-F]{4,})X\] (\*\*|  )$' % s, re.S)
        for b, s in ((True, r' *(\d+)'), (False, '()        '))}
SELF = re.compile(r'^ *(-?nan|[\d.]+) +(\d+)  (.*)\[([0-9a-fA-F]{4,})X\]$')
LOC = re.compile(r'^(.*)\[([0-9a-fA-F]{4,})X\]: (.*)$')


def parse(text, factor=1):
    """The report as a structure; None if it is not of the documented form."""
    if text == '':
        return dict(empty=True)
    bad = []

    def t(x):
        x = int(x)
        if x % factor:
            bad.append(x)
        return x // factor

    def call(l, block):
        m = CALL[block].match(l)
        if not m or (m.group(1) == '**') != block or m.group(7) != m.group(1):
            bad.append(l)
            return dict(id=0, count=0, time=0, self=0, name='')
        d = dict(id=int(m.group(6), 16), count=int(m.group(2)), time=t(m.group(3)), name=m.group(5))
        if block:
            d['self'] = t(m.group(4))
        return d
    m = re.match(r'Profile Report\n=+\nblocks executed: ([\d.]+)% of (\d+)\n\n(.*)\Z', text, re.S)
    if not m:
        return None
    rep = dict(empty=False, covered=round(float(m.group(1)) * 100), of=int(m.group(2)))
    secs = {}
    for s in re.finditer(r'^(Flat Profile by Overall Time|Flat Profile by Self Time|Call Graph|Block Locations)\n-+\n(.*?)\n\n', m.group(3) + '\n', re.S | re.M):
        secs[s.group(1)] = s.group(2).split('\n')
    try:
        rep['overall'] = [call(l, True) for l in secs['Flat Profile by Overall Time'][1:]]
        rep['selfs'] = []
        for l in secs['Flat Profile by Self Time'][1:]:
            s = SELF.match(l)
            rep['selfs'].append(dict(pct=0 if 'nan' in s.group(1) else round(float(s.group(1)) * 100), self=t(s.group(2)),
                                     name=s.group(3), id=int(s.group(4), 16)))
        rep['graph'] = []
        cur = None
        for l in secs['Call Graph'][1:]:
            if cur is None:
                cur = dict(callers=[], block=None, callees=[])
            if re.match('^-+$', l):
                rep['graph'].append(cur)
                cur = None
            elif l.startswith('**'):
                if cur['block'] is not None:
                    return None
                cur['block'] = call(l, True)
            else:
                cur['callers' if cur['block'] is None else 'callees'].append(call(l, False))
        if cur is not None or any(g['block'] is None for g in rep['graph']):
            return None
        rep['locs'] = []
        for l in secs['Block Locations']:
            s = LOC.match(l)
            rep['locs'].append(dict(id=int(s.group(2), 16), name=s.group(1), loc=s.group(3)))
    except (KeyError, AttributeError):
        return None
    return None if bad else rep
