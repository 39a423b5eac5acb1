from gen import G, E
ACTS = ['linear', 'sigmoid', 'swish', 'mish', 'softplus', 'softsign', 'cloglog', 'gaussian_cdf', 'relu', 'tanh', 'arsinh', 'sech', 'sigmoid', 'tanh']
REGS = ['none', 'none', 'ridge', 'lasso', 'elastic_net', 'clip']
def f4(r, a=-.8, b=.8): return round(r.uniform(a, b), 4)
def mat(r, n, c): return dict(r=n, c=c, d=[[f4(r) for _ in range(c)] for _ in range(n)])
def reg(r, none=False):
    t = 'none' if none else r.choice(REGS); lam, al = round(r.uniform(.01, .3), 2), round(r.uniform(.1, .9), 2)
    if t == 'clip': lam, al = -round(r.uniform(.1, 1), 2), round(r.uniform(.1, 1), 2)
    return dict(reg=t, lam=lam, al=al)
def layer(r, k, n, f, rg, cost='none'): return dict(w=mat(r, k, n), b=[f4(r) for _ in range(n)], f=f, cost=cost, **rg)
def net(g, kind, n=None, depth=None, names=('X', 'y', 'm')):
    r = g.r; n = n or r.randint(1, 6); k = r.randint(1, 4); X, y, m = names
    xs = g.mat(n, k, r.choice(['unit', 'sint', 'unit']))
    ev = [E('M.new', X, xs)]; ls = []; sch = dict(t='none', d=0, drop=0); w = k
    if kind in ('ann', 'mann'):
        for _ in range(r.choice([0, 1, 1, 2, 2, 3]) if depth is None else depth):
            h = r.randint(1, 3); ls.append(layer(r, w, h, r.choice(ACTS), reg(r))); w = h
        cost, f, yk = r.choice([('mse', r.choice(ACTS), 'real'), ('mse', r.choice(ACTS), 'bin'), ('log_loss', 'sigmoid', 'bin'), ('hinge_loss', 'tanh', 'sgn'), ('mae', 'linear', 'real'), ('rmse', 'linear', 'real'), ('mbe', 'sigmoid', 'real'), ('wasserstein_loss', 'linear', 'sgn'), ('cross_entropy', 'sigmoid', 'bin')])
        o = 1 if kind == 'ann' else r.randint(1, 3)
        if kind == 'mann' and r.random() < .4: cost, f, yk = 'cross_entropy', 'softmax', 'hot'; o = r.randint(1, 4)
        out = layer(r, w, o, f, reg(r), cost)
        if kind == 'ann' and r.random() < .5:
            t = r.choice(['time', 'epoch', 'step', 'exponential']); sch = dict(t=t, d=round(r.uniform(.2, .9), 2), drop=r.choice([1, 2, 2.5, 3]))
    else:
        h = r.randint(1, 4); o, f, cost, yk = dict(mlp=(1, 'sigmoid', 'log_loss', 'bin'), snet=(r.randint(1, 4), 'softmax', 'cross_entropy', 'hot'), ae=(k, 'linear', 'mse', 'self'))[kind]
        rg = reg(r, kind == 'ae'); ls = [layer(r, k, h, 'sigmoid', rg)]; out = layer(r, h, o, f, rg, cost)
    v = dict(real=lambda: f4(r, -2, 2), bin=lambda: r.choice([0, 1]), sgn=lambda: r.choice([-1, 1])).get(yk)
    if yk == 'self': y = X
    elif yk == 'hot':
        Y = [[0] * o for _ in range(n)]
        for row in Y: row[r.randrange(o)] = 1
        ev.append(E('M.new', y, dict(r=n, c=o, d=Y)))
    elif kind in ('ann', 'mlp'): ev.append(E('V.new', y, [v() for _ in range(n)]))
    else: ev.append(E('M.new', y, dict(r=n, c=o, d=[[v() for _ in range(o)] for _ in range(n)])))
    ev.append(E('N.new', m, kind, X, y, ls, out, sch, 'set' if kind in ('mlp', 'snet') and r.random() < .5 else 'ctor'))
    return ev, n, k, o
def queries(g, n, k, names=('X', 'y', 'm')):
    X, y, m = names; r = g.r
    q = [E('V.new', 'q', g.vec(k, 'unit')), E('N.test', m, 'v', 'q'), E('M.new', 'Q', g.mat(r.randint(1, 4), k, 'real')), E('N.test', m, 'm', 'Q'), E('N.test', m, 'm', X), E('N.score', m)]
    r.shuffle(q[3:]); return q
def rate(r, kind): return r.choice([.1, .05, .2, .01, round(r.uniform(.01, .3), 3)])
def par(r, f):
    e = r.choice([1e-8, 1e-3, .1]); b = lambda: round(r.uniform(.1, .95), 2)
    return dict(momentum=lambda: [b()], nag=lambda: [b()], adagrad=lambda: [e], adadelta=lambda: [b(), e]).get(f, lambda: [b(), b(), e])()
OPT = ['momentum', 'nag', 'adagrad', 'adadelta', 'adam', 'adamax', 'nadam', 'amsgrad']
def cut(ev, n):
    for e in ev[:2]:
        if e['op'] == 'N.new': continue
        a = e['a'][1]
        if isinstance(a, dict): a['r'] = min(n, a['r']); a['d'] = a['d'][:n]
        else: e['a'][1] = a[:n]
def train(g, kind, f, depth=None):
    """create, train, query, train again"""
    r = g.r; ev, n, k, o = net(g, kind, depth=depth); lr = rate(r, kind)
    if f == 'sgd' and n > 3: n = 3; cut(ev, n)
    def step(f): return E('N.train', 'm', f, lr, r.randint(0, 2 if f == 'sgd' else 3), r.randint(1, n), par(r, f) if f in OPT else [])
    ev.append(step(f))
    if r.random() < .7: ev += queries(g, n, k)
    ev.append(step(f))
    ev += [step('gd'), E('N.test', 'm', 'm', 'X'), E('N.score', 'm')]
    return ev
def layers(g):
    r = g.r; kind = r.choice(['hidden', 'hidden', 'output', 'multi']); n = r.randint(1, 4); k = r.randint(1, 4); h = [r.randint(1, 4)]
    if kind == 'output': h = [k]
    if kind == 'multi': h = [k, r.randint(1, 4)]
    X, Z, q = 'X', 'Z', 'q'; how = 'ctor' if kind == 'multi' else r.choice(['ctor', 'plain'])
    ev = [E('M.new', 'X', g.mat(n, k, 'real')), E('M.new', 'Z', g.mat(r.randint(1, 4), k, 'unit')), E('V.new', 'q', g.vec(k, 'unit'))]
    rg = reg(r); fs = ACTS + (['softmax'] if kind == 'multi' else [])
    ev.append(E('N.layer', 'l', kind, 'X', h, r.choice(fs), rg['reg'], rg['lam'], rg['al'], how))
    if kind != 'multi' and r.random() < .5: ev.append(E('N.init', 'l'))
    else: ev.append(E('N.forward', 'l') if r.random() < .5 else E('N.one', 'l', q))
    cols = dict(hidden=h[0], output=1, multi=h[-1])[kind]
    for _ in range(r.randint(3, 10)):
        x = r.choice('XfwwbblraFFFOO' + ('nWV' if kind != 'multi' else ''))
        if x == 'F': ev.append(E('N.forward', 'l'))
        elif x == 'O': ev.append(E('N.one', 'l', q))
        elif x == 'X': ev.append(E('N.set', 'l', 'X', r.choice([X, Z])))
        elif x in 'nWV':
            if x == 'W': ev.append(E('N.set', 'l', 'W', r.randrange(8)))
            elif x == 'V' or kind == 'output': # another width of input
                k = r.randint(1, 4); X, Z, q = ('%s%d' % (v, len(ev)) for v in 'XZq'); ev += [E('M.new', X, g.mat(n, k, 'real')), E('M.new', Z, g.mat(r.randint(1, 4), k, 'unit')), E('V.new', q, g.vec(k, 'unit'))]
                ev += [E('N.set', 'l', 'n', [k])] if kind == 'output' else []
                ev.append(E('N.set', 'l', 'X', r.choice([X, Z])))
            else: h = [r.randint(1, 4)]; cols = h[0]; ev.append(E('N.set', 'l', 'n', h))
            ev.append(r.choice([E('N.init', 'l'), E('N.forward', 'l'), E('N.one', 'l', q)]))
        elif x == 'f': ev.append(E('N.set', 'l', 'f', r.choice(fs)))
        elif x == 'w': ev.append(E('N.set', 'l', 'w', g.vec(k, 'unit') if kind == 'output' else g.mat(k, cols, 'unit')))
        elif x == 'b': ev.append(E('N.set', 'l', 'b', g.val('unit') if kind == 'output' else g.vec(cols, 'unit')))
        elif x == 'l': ev.append(E('N.set', 'l', 'lam', g.val('unit')))
        elif x == 'a': ev.append(E('N.set', 'l', 'al', g.val('unit')))
        else: ev.append(E('N.set', 'l', 'reg', r.choice(REGS)))
    return ev + [E('N.forward', 'l'), E('N.one', 'l', q)]
