from gen import G, E
def distinct(r, pool, n): return r.sample(pool, n)
def labelled(g, n, c, classes, kind):
    """n rows, labels covering every class"""
    r = g.r
    y = list(range(classes)) + [r.randrange(classes) for _ in range(n - classes)]; r.shuffle(y)
    return [E('M.new', 'X', g.mat(n, c, kind)), E('V.new', 'y', y)]
def ask(g, c, kind, rows=None):
    return [E('V.new', 'q', g.vec(c, kind)), E('C.testv', 'm', 'q'), E('M.new', 'Q', g.mat(rows or g.r.randint(1, 5), c, kind)), E('C.testm', 'm', 'Q')]
def knn(g):
    r = g.r; n = r.randint(1, 8); c = r.randint(1, 3); kind = r.choice(['sint', 'int', 'real', 'half'])
    ev = [E('M.new', 'X', g.mat(n, c, kind)), E('V.new', 'y', [r.choice([0, 1, 2, 5, -3][:r.randint(1, 5)]) for _ in range(n)]), E('C.knn', 'm', 'X', 'y', r.randint(1, n))]
    for _ in range(r.randint(1, 3)):
        ev += ask(g, c, kind) + [E('C.score', 'm'), E('C.testm', 'm', 'X')]
        if r.random() < .6: ev.append(E('C.knn.k', 'm', r.randint(1, n)))
    return ev
def kmeans(g, ties):
    r = g.r; n = r.randint(2, 9 if not ties else 5); c = r.randint(1, 4); kind = r.choice(['sint', 'int']) if ties else 'real'
    k = r.randint(1, min(n, 3 if ties else 5)); ev = [E('M.new', 'X', g.mat(n, c, kind)), E('C.km', 'm', 'X', k, r.choice(['pp', 'pp', 'random']))]
    if r.random() < .4: ev += ask(g, c, 'real')
    if r.random() < .5 and not ties: ev.append(E('C.km.means', 'm', g.mat(k, c, 'real')))
    for _ in range(r.randint(1, 3)):
        ev += [E('C.train', 'm', 1 if ties else r.randint(0, 4))] + ask(g, c, 'real') + [E('C.score', 'm')]
        if k > 1 and not ties: ev.append(E('C.km.sil', 'm'))
    return ev
def bayes(g, kind):
    r = g.r; k = 2 if kind == 'bern' else r.randint(1, 4)
    if kind == 'gauss':
        c = r.randint(1, 4); n = 2 * k + r.randint(0, 4); vk = r.choice(['real', 'unit', 'pos'])
        y = list(range(k)) * 2 + [r.randrange(k) for _ in range(n - 2 * k)]; r.shuffle(y); sh = [r.uniform(-4, 4) for _ in range(k)]
        X = dict(r=n, c=c, d=[[round(g.val(vk) * (1 + y[i]) + sh[y[i]], 3) for _ in range(c)] for i in range(n)])
        ev = [E('M.new', 'X', X), E('V.new', 'y', y)]; q = lambda: g.vec(c, r.choice(['real', 'int', 'big']))
    else:
        pool = [0, 1, 2, 3, 4, 7, 0.5, -2][:r.randint(4, 8)]; c = r.randint(1, 3); n = k + r.randint(0, 5)
        row = (lambda: distinct(r, pool, c)) if kind == 'bern' else (lambda: [r.choice(pool) for _ in range(c)])
        y = list(range(k)) + [r.randrange(k) for _ in range(n - k)]; r.shuffle(y)
        ev = [E('M.new', 'X', dict(r=n, c=c, d=[row() for _ in range(n)])), E('V.new', 'y', y)]; q = row
    ev.append(E('C.nb', 'm', kind, 'X', 'y', k))
    if r.random() < .7: ev.append(E('C.score', 'm'))
    ev.append(E('C.testm', 'm', 'X'))
    for _ in range(r.randint(1, 3)): ev += [E('V.new', 'q', q()), E('C.testv', 'm', 'q')]
    ev += [E('M.new', 'Q', dict(r=3, c=c, d=[q() for _ in range(3)])), E('C.testm', 'm', 'Q'), E('C.score', 'm')]
    return ev
def outlier(g):
    r = g.r; t = r.choice([0, .5, 1, 1.5, 2, round(r.uniform(0, 3), 2)])
    def row(n):
        k = r.choice(['int', 'real', 'half', 'same'])
        v = [g.val('int')] * n if k == 'same' else g.vec(n, k)
        if r.random() < .5 and n: v[r.randrange(n)] = r.choice([50, -70])
        return v
    n, c = r.randint(1, 4), r.randint(1, 9)
    return [E('V.new', 'q', row(r.randint(1, 12))), E('M.new', 'Q', dict(r=n, c=c, d=[row(c) for _ in range(n)])), E('C.out', 'm', t, r.choice(['new', 'set'])),
            E('C.testv', 'm', 'q'), E('C.testm', 'm', 'Q'), E('C.out.bind', 'm', 'Q'), E('C.out.ix', 'm', 'Q')]
def uni(g):
    r = g.r; n = r.randint(2, 9); k = r.choice(['int', 'real', 'half'])
    x = g.vec(n, k); x[0] = x[1] + 1
    ev = [E('V.new', 'X', x), E('V.new', 'y', g.vec(n, k)), E('C.uni', 'm', 'X', 'y', r.choice(['new', 'set'])), E('C.testv', 'm', 'X'), E('C.testm', 'm', g.val('real'))]
    ev += [E('C.uni.set', 'm', g.val('real'), g.val('real')), E('V.new', 'q', g.vec(r.randint(1, 4), 'real')), E('C.testv', 'm', 'q'), E('C.testm', 'm', g.val('int')), E('C.train', 'm', 1), E('C.testv', 'm', 'q')]
    return ev
