# Scripts for signals.
import vf
from gen import E
ALL = ['s0', 's1', 's2'] + ['o%dm%d' % (i, j) for i in range(3) for j in range(2)]
def explore(c, calls, maxconn, depth, limit=None):
    cfg = vf.GEN_CFG + 'CONSTANTS Calls = {%s}\nMaxConn = %d\n' % (', '.join('"%s"' % k for k in calls), maxconn)
    s = c.gen(vf.gen_module('SigGen'), cfg, props=dict(depth=depth), name='SigGen exploration')
    return s if not limit or len(s) <= limit else c.rng.sample(s, limit)
def rand(r, n):
    sig = ['a', 'b', 'c'] + (['res'] if r.random() < .4 else []); cs = r.sample(ALL, r.randint(2, 6))
    ev = [E('S.new', s) for s in sig]; ems = ['e1', 'e2']
    P = lambda s: [] if s == 'res' else [r.randint(0, 99) for _ in range(r.randint(0, 5))]
    em = lambda s: 'er' if s == 'res' else r.choice(ems)
    def acts(d):
        o = []
        for _ in range(r.choice([0, 1, 1, 2, 3])):
            s = r.choice(sig); k = r.choice(['c', 'd', 'd', 'e'])
            o.append([k, s, em(s), P(s)] if k == 'e' else [k, s, r.choice(cs)])
        return o
    for _ in range(n):
        s = r.choice(sig); k = r.choice(['connect'] * 4 + ['disconnect'] * 2 + ['is', 'emit', 'emit', 'emit', 'copy', 'del'])
        if k in ('connect', 'disconnect', 'is'): ev.append(E('S.' + k, s, r.choice(cs)))
        elif k == 'copy':
            t = r.choice(sig)
            if 'res' not in (s, t): ev.append(E('S.copy', s, t))
        elif k == 'del' and s != 'res' and r.random() < .3: ev += [E('S.del', s), E('S.new', s)]
        elif k == 'emit': ev.append(E('S.emit', s, em(s), P(s), [[r.choice(cs), acts(1)] for _ in range(r.choice([0, 0, 1, 2, 4]))]))
    return ev
