import vf
from gen import G, E
from learn import model, queries, rate
METH = dict(lin=['gd', 'sgd', 'mbgd'], log=['gd', 'mle', 'sgd', 'mbgd'], probit=['gd', 'mle', 'sgd', 'mbgd'], cloglog=['gd', 'mle', 'sgd', 'mbgd'],
            tanh=['gd', 'sgd', 'mbgd'], exp=['gd', 'sgd', 'mbgd'], softmax=['gd', 'sgd', 'mbgd'])
def run(c):
    c.model('LearnTheory', 'INIT Init\nNEXT Next\nINVARIANTS Gradient OneBatch EpochSplit Fixed\nCHECK_DEADLOCK FALSE\n')
    exe = vf.build(['la.cpp', 'ops_learn.cpp'], 'all')
    g = G(c.rng); r = c.rng; out = []
    for kind, ms in METH.items():
        for _ in range(c.n(14, 300)):
            for f in ms:
                ev, n, k = model(g, kind)
                lr = rate(r) if kind not in ('exp', 'lin') else r.choice([.01, .05, .02])
                def ep(): return r.randint(1, 3 if f == 'sgd' else 4)
                def bs(): return r.randint(1, n)
                if f == 'sgd' and n > 4: n = 4; ev[0]['a'][1]['r'] = 4; ev[0]['a'][1]['d'] = ev[0]['a'][1]['d'][:4]; y = ev[1]['a'][1]; ev[1]['a'][1] = dict(r=4, c=y['c'], d=y['d'][:4]) if kind == 'softmax' else y[:4]
                ev.append(E('L.train', 'm', f, lr, ep(), bs(), []))
                ev += queries(g, n, k, kind)
                ev.append(E('L.train', 'm', f, lr, ep(), bs(), []))
                f2 = r.choice([x for x in ms if x != 'sgd']); ev.append(E('L.train', 'm', f2, lr, r.randint(1, 5), bs(), []))
                ev += [E('L.test', 'm', 'm', 'X'), E('L.score', 'm')]
                out.append(ev)
        for _ in range(c.n(1, 6)):
            ev, n, k = model(g, kind, r.randint(2, 3))
            out.append(ev + [E('L.sgdcov', 'm', .1, c.n(80, 200))])
        for _ in range(2):
            ev, n, k = model(g, kind)
            out.append(ev[:2] + [E('L.rand', *ev[2]['a'][:7])])
        ev, n, k = model(g, kind)
        h, y = (g.mat(2, 3, 'prob'), g.mat(2, 3, 'prob')) if kind == 'softmax' else (g.vec(3, 'prob'), g.vec(3, 'prob'))
        out.append(ev + [E('L.cost', 'm', h, y)])
    c.conform(exe, 'LearnSpec', out, name='regressions')
    c.assumptions = ['mini-batches no larger than the training set; stochastic steps checked with at most four samples and three epochs', 'finite training histories (moderate rates)']
