import vf
from gen import G, E
from learn import model, queries
def run(c):
    c.model('OptTheory', 'INIT Init\nNEXT Next\nINVARIANTS Plain OneStep NormalOk NewtonOk\nCHECK_DEADLOCK FALSE\n')
    exe = vf.build(['la.cpp', 'ops_learn.cpp'], 'all')
    g = G(c.rng); r = c.rng; out = []
    P = dict(momentum=1, nag=1, adagrad=0, adadelta=1, adam=2, adamax=2, nadam=2)
    for _ in range(c.n(24, 500)):
        for f, nb in P.items():
            ev, n, k = model(g, 'lin', n=r.randint(1, 7))
            p = [round(r.uniform(.1, .95), 2) for _ in range(nb)] + [r.choice([1e-8, 1e-4, .1, .01])]
            lr = r.choice([.01, .05, .1])
            for _ in range(2): ev.append(E('L.train', 'm', f, lr, r.randint(1, 4), r.randint(1, n), p))
            out.append(ev + queries(g, n, k, 'lin'))
        while True:
            n = r.randint(2, 7); k = r.randint(1, min(3, n)); ev, n, k = model(g, 'lin', n, k)
            X = ev[0]['a'][1]['d']
            if abs(gram_det(X, k)) > .05: break
        out.append(ev + [E('L.train', 'm', 'normal', 0, 1, 1, [])] + queries(g, n, k, 'lin'))
        out.append(ev + [E('L.train', 'm', 'newton', r.choice([.1, 1, .5, n]), r.randint(1, 4), 1, [])] + queries(g, n, k, 'lin'))
    c.conform(exe, 'LearnSpec', out, name='optimisers')
    c.assumptions = ['moments and gradients stay away from zero where they divide; Gram matrices well conditioned']
def gram_det(X, k):
    import itertools
    A = [[sum(row[i] * row[j] for row in X) for j in range(k)] for i in range(k)]
    if k == 1: return A[0][0]
    if k == 2: return A[0][0] * A[1][1] - A[0][1] ** 2
    return sum((1 if p in ((0, 1, 2), (1, 2, 0), (2, 0, 1)) else -1) * A[0][p[0]] * A[1][p[1]] * A[2][p[2]] for p in itertools.permutations(range(3)))
