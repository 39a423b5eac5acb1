import vf, siggen
def run(c):
    exe = vf.build(['ops_sig.cpp'], 'sfw'); r = c.rng
    c.conform(exe, 'SigSpec', siggen.explore(c, ['s0', 'o0m0', 'o1m0'], 2, c.n(6, 8), limit=c.n(6000, 80000)), name='small scope')
    c.conform(exe, 'SigSpec', siggen.explore(c, ['s0', 's1', 'o0m1'], 3, c.n(6, 7), limit=c.n(3000, 60000)), name='small scope, three connections')
    c.conform(exe, 'SigSpec', [siggen.rand(r, 50) for _ in range(c.n(800, 15000))], name='random histories')
