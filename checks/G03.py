import vf
from gen import G, E
from learn import model, queries, rate
def run(c):
    c.model('SvcTheory', 'INIT Init\nNEXT Next\nINVARIANTS Boxed HingeGradient OneBatch\nCHECK_DEADLOCK FALSE\n')
    exe = vf.build(['la.cpp', 'ops_learn.cpp'], 'all')
    g = G(c.rng); r = c.rng; out = []
    for _ in range(c.n(60, 1200)):
        for kind, f in (('svc', 'gd'), ('svc', 'sgd'), ('svc', 'mbgd'), ('dual', 'gd')):
            ev, n, k = model(g, kind, n=r.randint(1, 4 if f == 'sgd' else 6))
            lr = r.choice([.1, .01, .05, .3])
            for _ in range(2):
                ev.append(E('L.train', 'm', f, lr, r.randint(1, 3), r.randint(1, n), []))
                ev += queries(g, n, k, kind)
            out.append(ev)
    for kind in ('svc', 'dual'):
        ev, n, k = model(g, kind)
        out.append(ev[:2] + [E('L.rand', *ev[2]['a'][:7])])
    for _ in range(c.n(2, 10)):
        ev, n, k = model(g, 'svc', r.randint(2, 3))
        out.append(ev + [E('L.sgdcov', 'm', .1, c.n(80, 200)), E('L.cost', 'm', g.vec(3), [1, -1, 1])])
    c.conform(exe, 'LearnSpec', out, name='support vectors')
    c.assumptions = ['labels are -1 and 1; the bias step of the dual form uses the first sample, as the library does']
