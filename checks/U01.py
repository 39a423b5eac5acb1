import vf
from gen import G, E
def run(c):
    exe = vf.build(['la.cpp', 'ops_data.cpp'], 'all')
    g = G(c.rng); r = c.rng; out = []
    # every sample count and batch count up to a bound, samples all distinct
    N = c.n(9, 16)
    for n in range(1, N + 1):
        X = dict(r=n, c=2, d=[[i, 100 + i] for i in range(n)]); y = [200 + i for i in range(n)]; Y = dict(r=n, c=3, d=[[300 + i, i, 7] for i in range(n)])
        ev = [E('M.new', 'X', X), E('V.new', 'y', y), E('M.new', 'Y', Y)]
        for k in range(1, n + 1):
            for via in ('direct', 'bind'):
                ev += [E('B.m', via, 'X', k), E('B.mv', via, 'X', 'y', k), E('B.mm', via, 'X', 'Y', k)]
            ev += [E('B.std', k, X['d']), E('B.std', k, X['d'], y), E('B.std', k, X['d'], Y['d'])]
        out.append(ev)
    for _ in range(c.n(60, 1500)):
        n, a, b = r.randint(1, 14), r.randint(1, 4), r.randint(1, 3)
        ev = [E('M.new', 'X', g.mat(n, a)), E('V.new', 'y', g.vec(n)), E('M.new', 'Y', g.mat(n, b))]
        k = r.randint(1, n)
        ev += [E('B.m', 'direct', 'X', k), E('B.mv', 'direct', 'X', 'y', k), E('B.mm', 'direct', 'X', 'Y', k)]
        for via in ('direct', 'bind', 'direct'):
            ev.append(E('B.split', via, 'X', 'Y', r.choice([0, .1, .2, .25, .3, .5, .75, .9, 1, round(r.uniform(0, 1), 2)])))
        out.append(ev)
    c.conform(exe, 'DataSpec', out, name='batches and splits')
    c.assumptions = ['the requested number of batches does not exceed the number of rows (documented use)', 'the matrix forms leave the remainder out, the std::vector forms add it to the last batch']
