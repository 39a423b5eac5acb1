import vf, netgen
from gen import G, E
def run(c):
    c.model('NetTheory', 'INIT Init\nNEXT Next\nINVARIANTS Gradient Compose Optimisers\nCHECK_DEADLOCK FALSE\n')
    exe = vf.build(['la.cpp', 'ops_net.cpp'], 'all'); g = G(c.rng); r = c.rng; out = []
    for f in ['gd', 'sgd', 'mbgd'] + netgen.OPT: out += [netgen.train(g, 'ann', f) for _ in range(c.n(22 if f == 'gd' else 14, 300))]
    out += [netgen.train(g, 'mann', 'gd') for _ in range(c.n(60, 1200))]
    for _ in range(c.n(4, 30)):
        ev, n, k, o = netgen.net(g, 'ann', r.randint(2, 3)); out.append(ev + [E('N.sgdcov', 'm', .1, c.n(60, 120))])
    for _ in range(c.n(12, 200)):
        ev, n, k, o = netgen.net(g, r.choice(['ann', 'mann']))
        out.append(ev + [E('N.cost', 'm', g.mat(3, o, 'prob'), g.mat(3, o, 'prob'))])
    c.conform(exe, 'NetSpec', out, name='layered networks')
    c.assumptions = ['mini-batches no larger than the training set; stochastic steps checked with at most three samples and two epochs', 'finite training histories (moderate rates)', 'no softmax inside hidden layers']
