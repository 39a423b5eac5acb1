import vf
from gen import G, E
def S(f, *a): return E('S', f, *a)
ANY = ['meanv', 'median', 'range', 'midrange', 'abs_avg_deviation', 'rms']
POS = ['geometric_mean', 'harmonic_mean', 'contra_harmonic_mean']
def run(c):
    c.model('StatTheory', 'INIT TInit\nNEXT TNext\nINVARIANTS Symmetric Bounds\nCHECK_DEADLOCK FALSE\n')
    exe = vf.build(['la.cpp', 'ops_stat.cpp'], 'all')
    g = G(c.rng); r = c.rng; out = []
    def sample(n, k=None):
        k = k or r.choice(['int', 'sint', 'half', 'real', 'pos', 'big'])
        v = g.vec(n, k)
        if r.random() < .3 and n > 2: v[r.randrange(n)] = v[r.randrange(n)]
        return v
    def spread(n):
        while True:
            v = sample(n)
            if max(v) - min(v) > .2: return v
    for _ in range(c.n(60, 1200)):
        n = r.choice([1, 2, 3, 4, 5, 6, 7, 8, 11]); v = sample(n)
        out.append([E('V.new', 'a', v)] + [S(f, 'a') for f in ANY])
        w = v[:]; r.shuffle(w)
        if n > 1: out.append([E('V.new', 'a', v), E('V.new', 'b', w)] + [S(f, s) for f in ANY + ['variancev', 'standard_deviationv'] for s in 'ab'])
        p = [round(r.uniform(.2, 6), r.choice([0, 1, 3])) or 1 for _ in range(n)]; q = [round(r.uniform(.2, 3), 2) for _ in range(n)]
        out.append([E('V.new', 'a', p), E('V.new', 'w', q)] + [S(f, 'a') for f in POS] + [S('weighted_mean', 'a', 'w')] + [S(f, 'a', k) for f in ('power_mean', 'lehmer_mean') for k in (1, 2, 3, r.choice([-1, -2, .5, 1.5]))] + [S('weighted_lehmer_mean', 'a', 'w', k) for k in (1, 2, r.choice([0, -1, .5]))])
        m = r.randint(2, 9); x, y = spread(m), spread(m)
        if r.random() < .2: y = [2 * t - 1 for t in x]
        out.append([E('V.new', 'x', x), E('V.new', 'y', y)] + [S(f, *o) for f in ('covariancev', 'correlation', 'r2', 'b1_estimation', 'b0_estimation') for o in (('x', 'y'), ('y', 'x'), ('x', 'x'))])
        out.append([E('V.new', 'x', x), E('V.new', 'y', spread(m + 1))] + [S(f, 'x', 'y') for f in ('covariancev', 'weighted_mean')] + [S(f, 'null', 'y') for f in ('covariancev', 'weighted_mean', 'correlation', 'r2', 'b0_estimation', 'b1_estimation')] + [S(f, 'null') for f in ANY + POS + ['variancev', 'standard_deviationv']])
        out.append([E('V.new', 'a', [r.choice([1, 2, 2, 3, -1, .5]) for _ in range(n)]), S('mode', 'a', 'm'), S('median', 'a')])
        A, B = round(r.uniform(.2, 9), 2), round(r.uniform(.2, 9), 2)
        if abs(A - B) < .05: B = A
        k = [A, B, r.choice([2, 3, -1, .5, 1.5])]
        out.append([S('heronian_mean', A, B), S('heronian_mean', B, A), S('identric_mean', A, B), S('log_mean', A, B), S('heinz_mean', A, B, r.choice([0, .25, .5, 1])), S('stolarsky_mean', *k), S('neuman_sandor_mean', A, B), S('neuman_sandor_mean', B, A), S('chebyshev_ineq', r.choice([1, 2, 3, 1.5]))])
    c.conform(exe, 'StatSpec', out, name='samples')
    c.assumptions = ['midrange and the Neuman-Sandor mean follow the definitions pinned by the test suite', 'mode order is not specified; samples of size one have no variance']
