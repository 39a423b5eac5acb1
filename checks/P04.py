import vf, contgen
from gen import E
KS = ('lvec', 'lvec.t', 'tvec', 'tvec.t', 'list', 'list.t')
def conv(r):
    ev = []; k = r.choice(['lvec', 'tvec', 'vec', 'pool'])
    ev.append(E('Q.new', 'a', k)); ev += [E('Q', 'a', 'push', r.randint(-9, 9)) for _ in range(r.randint(0, 9))]
    ev.append(E('Q.conv', 'b', 'a', r.choice(['vec', 'pool'] if k in ('lvec', 'tvec') else ['lvec', 'tvec'])))
    return ev + [E('Q', 'b', 'push', 3), E('Q', 'a', 'push', 4), E('Q.del', 'a'), E('Q.del', 'b')]
def run(c):
    exe = vf.build(['ops_cont.cpp'], 'sfw'); r = c.rng
    for k in ('lvec', 'tvec', 'list', 'ring') if c.tier == 'quick' else KS + ('ring',):
        c.conform(exe, 'ContSpec', contgen.explore(c, k, [1, 2], c.n(3, 4), limit=c.n(3000, 60000)), name='small scope: ' + k)
    c.conform(exe, 'ContSpec', [contgen.seq(r, r.choice(KS), 60, r.random() < .1) for _ in range(c.n(500, 12000))], name='random histories')
    c.conform(exe, 'ContSpec', [contgen.ring(r, 80) for _ in range(c.n(200, 6000))], name='ring buffers')
    c.conform(exe, 'ContSpec', [conv(r) for _ in range(c.n(80, 1500))], name='conversions')
    c.conform(exe, 'ContSpec', [contgen.sorting(r) for _ in range(c.n(100, 3000))], name='sorting')
