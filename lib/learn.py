from gen import G, E
REG = ['none', 'ridge', 'lasso', 'elastic_net', 'clip']
def model(g, kind, n=None, k=None):
    """data and parameters of one single-layer learner: events creating X, y and the model 'm'"""
    r = g.r; n = n or r.randint(1, 6); k = k or r.randint(1, 4)
    reg = r.choice(REG + ['none', 'none']); lam = round(r.uniform(.01, .3), 2); al = round(r.uniform(.1, .9), 2)
    if reg == 'clip': lam, al = -round(r.uniform(.1, 1), 2), round(r.uniform(.1, 1), 2)
    a = 'none'
    if kind in ('svc', 'dual'): reg, lam, al = 'none', 0, r.choice([1, .5, 2, .25])
    if kind == 'exp': X = dict(r=n, c=k, d=[[r.randint(0, 3) for _ in range(k)] for _ in range(n)])
    else: X = g.mat(n, k, r.choice(['unit', 'half', 'sint', 'real']) if kind in ('lin', 'svc', 'dual') else r.choice(['unit', 'sint', 'unit']))
    if kind in ('svc', 'dual'): y = [r.choice([-1, 1]) for _ in range(n)]
    elif kind in ('lin', 'exp'): y = g.vec(n, r.choice(['sint', 'real']))
    elif kind == 'tanh': y = [r.choice([-1, 0, 1]) for _ in range(n)]
    else: y = [r.choice([0, 1]) for _ in range(n)]
    w = g.vec(k, 'unit'); b = g.val('unit')
    if kind == 'exp': w = [round(r.uniform(.4, 1.3), 2) for _ in range(k)]; a = g.vec(k, 'unit')
    if kind == 'dual': w = 'none'; a = g.vec(n, r.choice(['unit', 'prob', 'int']))
    ev = [E('M.new', 'X', X)]
    if kind == 'softmax':
        c = r.randint(1, 4); w = g.mat(k, c, 'unit'); b = g.vec(c, 'unit')
        Y = [[0] * c for _ in range(n)]
        for row in Y: row[r.randrange(c)] = 1
        ev.append(E('M.new', 'y', dict(r=n, c=c, d=Y)))
    else: ev.append(E('V.new', 'y', y))
    ev.append(E('L.new', 'm', kind, 'X', 'y', reg, lam, al, w, b, a) if kind not in ('probit', 'tanh', 'svc', 'softmax') or r.random() < .5 else E('L.new', 'm', kind, 'X', 'y', reg, lam, al, w, b, a, 'set'))
    return ev, n, k
def queries(g, n, k, kind, m=None):
    r = g.r; vk = 'sint' if kind == 'exp' else r.choice(['real', 'unit'])
    q = [E('V.new', 'q', [abs(x) for x in g.vec(k, vk)] if kind == 'exp' else g.vec(k, vk)), E('L.test', 'm', 'v', 'q'), E('L.test', 'm', 'm', 'X')]
    A = g.mat(r.randint(1, 4), k, vk)
    if kind == 'exp': A['d'] = [[abs(x) for x in row] for row in A['d']]
    return q + [E('M.new', 'Q', A), E('L.test', 'm', 'm', 'Q'), E('L.score', 'm')]
def rate(r): return r.choice([.1, .5, .05, .01, 1, round(r.uniform(.01, .6), 3)])
