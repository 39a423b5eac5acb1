import vf
from gen import G, E
def run(c):
    c.model('CostTheory', 'INIT Init\nNEXT Next\nINVARIANTS RegOk\nCHECK_DEADLOCK FALSE\n')
    exe = vf.build(['la.cpp', 'ops_cost.cpp'], 'core')
    g = G(c.rng); r = c.rng; out = []
    for _ in range(c.n(60, 1200)):
        for t in ('none', 'ridge', 'lasso', 'elastic_net', 'clip'):
            lam = r.choice([0, 1, .5, round(r.uniform(.01, 3), 3)]); al = r.choice([0, 1, .5, round(r.uniform(0, 1), 3)])
            if t == 'clip': lam = r.choice([-1, -.5, 0, round(r.uniform(-2, 0), 2)]); al = lam + r.choice([0, 1, .25, 1.5])
            s = (r.randint(0, 4), r.randint(1, 4))
            if s[0] == 0: s = (0, 0)
            k = r.choice(['int', 'sint', 'half', 'real', 'unit', None])
            v = g.vec(r.randint(0, 7), k)
            if v and r.random() < .5: v[0] = r.choice([0, lam, al])
            out.append([E('V.new', 'w', v), E('M.new', 'W', g.mat(s[0], s[1], k))] + [E('G', f, q, w, t, lam, al, 'd' + q) for f in ('term', 'deriv', 'weights') for q, w in (('v', 'w'), ('m', 'W'))]
                       + [E('G', 'weights', 'v', 'dv', t, lam, al, 'e'), E('G', 'weights', 'm', 'dm', t, lam, al, 'f')])
    c.conform(exe, 'CostSpec', out, name='type x weights')
    c.assumptions = ['clipping interval not empty (lambda <= alpha)']
