import vf, netgen
from gen import G, E
def run(c):
    c.model('NetTheory', 'INIT Init\nNEXT Next\nINVARIANTS GradientTwo Compose\nCHECK_DEADLOCK FALSE\n')
    exe = vf.build(['la.cpp', 'ops_net.cpp'], 'all'); g = G(c.rng); r = c.rng; out = []
    for k in ['mlp', 'snet', 'ae']:
        for f in ['gd', 'sgd', 'mbgd']: out += [netgen.train(g, k, f) for _ in range(c.n(24, 500))]
        for _ in range(c.n(2, 15)):
            ev, n, _k, o = netgen.net(g, k, r.randint(2, 3)); out.append(ev + [E('N.sgdcov', 'm', .1, c.n(60, 120))])
        for _ in range(c.n(6, 100)):
            ev, n, _k, o = netgen.net(g, k); out.append(ev + [E('N.cost', 'm', g.mat(3, o, 'prob'), g.mat(3, o, 'prob'))])
    c.conform(exe, 'NetSpec', out, name='fixed networks')
    c.assumptions = ['mini-batches no larger than the training set; stochastic steps checked with at most three samples and two epochs', "the auto-encoder's decoder bias steps at the unscaled rate, as the library does"]
