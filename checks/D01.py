import vf
from gen import G, E
def run(c):
    exe = vf.build(['la.cpp', 'ops_data.cpp'], 'all')
    g = G(c.rng); r = c.rng; out = []
    def spread(v): return max(v) - min(v) > .05
    for _ in range(c.n(150, 3000)):
        n, m = r.randint(2, 6), r.randint(2, 5)
        while True:
            A = g.mat(n, m)
            if all(map(spread, A['d'])) and all(map(spread, zip(*A['d']))): break
        out.append([E('M.new', 'A', A)] + [E('D.m', f, 'A', d) for f, d in (('feature_scaling', 'S'), ('mean_centering', 'C'), ('mean_normalization', 'N'))] + [E('D.m', 'mean_centering', 'C', 'D'), E('D.m', 'feature_scaling', 'N', 'T')])
        out.append([E('M.new', 'A', g.mat(r.randint(1, 3), r.randint(1, 4))), E('D.m', 'mean_centering', 'A', 'C')])
        k = r.randint(1, 6); y = [r.randrange(k) for _ in range(r.randint(1, 8))]
        out.append([E('V.new', 'y', y), E('D.onehot', 'y', 'H', k), E('D.onehot', 'y', 'J', k + 2), E('D.unhot', dict(r=len(y), c=k, d=[[1 if j == v else 0 for j in range(k)] for v in y]))])
    c.conform(exe, 'DataSpec', out, name='transforms')
    c.assumptions = ['constant features cannot be scaled and constant rows cannot be normalised', 'labels are classes 0..k-1; centering and normalisation work row by row as in the library']
