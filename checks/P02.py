import vf, contgen
KS = ('rbmap', 'rbset', 'vmap', 'vset')
def run(c):
    exe = vf.build(['ops_cont.cpp'], 'sfw'); r = c.rng
    for k in KS:
        c.conform(exe, 'ContSpec', contgen.explore(c, k, [1, 2, 3], 3, limit=c.n(2500, 40000)), name='small scope: ' + k)
    c.conform(exe, 'ContSpec', [contgen.perms(r, k, r.randint(3, 16)) for k in KS[:2] for _ in range(c.n(250, 6000))], name='insertion and erasure orders')
    c.conform(exe, 'ContSpec', [contgen.map_(r, r.choice(KS), 70, r.choice([5, 12, 30])) for _ in range(c.n(400, 10000))], name='random histories')
    c.conform(exe, 'ContSpec', [contgen.map_(r, r.choice(KS[:2]), c.n(250, 400), 120) for _ in range(c.n(12, 300))], name='random histories, larger trees')
