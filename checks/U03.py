import vf
from gen import G, E
def run(c):
    exe = vf.build(['la.cpp', 'ops_data.cpp'], 'all')
    r = c.rng; out = []
    kinds = ['default', 'xavier_normal', 'xavier_uniform', 'he_normal', 'he_uniform', 'le_cun_normal', 'le_cun_uniform', 'uniform']
    for _ in range(c.n(2, 20)):
        for k in kinds:
            for n in (300, r.choice([2, 5, 20, 80])):
                out.append([E('W.init', k, n, 1, 'v', (300 + n - 1) // n)])
            s = r.choice([3, 4, 7, 18, 25])
            out.append([E('W.init', k, s, s, 'm', 300 // (s * s) + 1)])
            if k in ('default', 'xavier_normal', 'xavier_uniform'):
                s, t = r.choice([(2, 9), (12, 3), (5, 40), (30, 2)])
                out.append([E('W.init', k, s, t, 'm', 300 // (s * t) + 1)])
        out.append([E('W.init', 'bias', 6, 1, 'v', 50), E('W.init', 'bias', 1, 1, 'r', 300)])
    c.conform(exe, 'DataSpec', out, name='distribution x shape')
    c.assumptions = ['at least 300 draws per distribution; bounds chosen so that a correct generator fails with probability below 1e-12', 'fan-in of non-square weight matrices is not specified for He, LeCun and plain uniform initialisation']
