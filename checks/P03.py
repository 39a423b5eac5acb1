import vf, contgen
KS = ('hmap', 'hmap.c', 'hmap.0', 'hset', 'hset.c', 'hset.0', 'oghash', 'oghash.c', 'ohash', 'ohash.c')
def run(c):
    exe = vf.build(['ops_cont.cpp'], 'sfw'); r = c.rng
    for k in ('hmap.c', 'hset.c', 'oghash.c', 'ohash.c') if c.tier == 'quick' else KS:
        c.conform(exe, 'ContSpec', contgen.explore(c, k, [1, 2, 4], 3, limit=c.n(2500, 40000)), name='small scope: ' + k)
    c.conform(exe, 'ContSpec', [contgen.map_(r, r.choice(KS), 70, r.choice([5, 12, 30])) for _ in range(c.n(600, 12000))], name='random histories')
    c.conform(exe, 'ContSpec', [contgen.map_(r, r.choice(KS), c.n(250, 400), 120) for _ in range(c.n(16, 300))], name='random histories with growth')
