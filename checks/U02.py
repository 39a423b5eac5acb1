import vf, itertools
from gen import G, E
def run(c):
    exe = vf.build(['la.cpp', 'ops_data.cpp'], 'all')
    g = G(c.rng); r = c.rng; out = []
    def K(f, h, y): return E('K', f, h, y)
    # exhaustive: every pair of binary prediction and label sequences up to a length
    for n in range(1, c.n(4, 6)):
        for h in itertools.product((0, 1), repeat=n):
            out.append([K(f, list(h), list(y)) for y in itertools.product((0, 1), repeat=n) for f in ('tfpn', 'accuracy', 'performance', 'performance_vec', 'performance_pool')])
    for _ in range(c.n(150, 3000)):
        n = r.randint(2, 12)
        while True:
            h = [r.choice([0, 1]) for _ in range(n)]; y = [r.choice([0, 1]) for _ in range(n)]
            if any(a == b == 1 for a, b in zip(h, y)): break
        out.append([K(f, h, y) for f in ('tfpn', 'recall', 'precision', 'accuracy', 'f1_score', 'performance', 'performance_vec', 'performance_pool')])
        lab = [r.choice([0, 1, 2, 3]) for _ in range(n)]
        pr = [round(l + r.choice([0, 0, .2, -.3, .45, -.45, .6, -.6, 1]), 2) for l in lab]
        out.append([K('performance', pr, lab), K('performance_vec', pr, lab), K('performance_pool', [r.choice([0, 1, 2, 3, l]) for l in lab], [round(l + r.choice([0, .3, -.3]), 2) for l in lab])])
        R, C = r.randint(1, 6), r.randint(1, 4)
        Y = dict(r=R, c=C, d=[[r.choice([0, 1]) for _ in range(C)] for _ in range(R)])
        H = dict(r=R, c=C, d=[[round(v + r.choice([0, 0, 0, .2, -.3, .7]), 2) for v in row] for row in Y['d']])
        out.append([K('performance_mat', H, Y), K('performance_std', H, Y)])
    c.conform(exe, 'DataSpec', out, name='confusion counts')
    c.assumptions = ['predictions exactly half way between two labels are not used; ratios with a zero denominator are not defined']
