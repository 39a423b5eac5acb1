import vf, contgen
def run(c):
    exe = vf.build(['ops_cont.cpp'], 'sfw')
    for k in ('vec', 'pool', 'vec.t', 'pool.t'):
        s = contgen.explore(c, k, [1, 2], 2 if '.' in k else c.n(2, 3), limit=c.n(1500 if '.' in k else 3000, 60000))
        c.conform(exe, 'ContSpec', s, name='every sharing history in small scope: ' + k)
    c.conform(exe, 'ContSpec', [contgen.seq(c.rng, c.rng.choice(['vec', 'vec.t', 'pool', 'pool.t']), 60, c.rng.random() < .1) for _ in range(c.n(600, 15000))], name='random sharing histories')
    c.assumptions = ['elements are int and an instance-counting class; ElementT() is 0']
