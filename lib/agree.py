"""Black-box histories of two learners on shared data: train, predict and score in any order."""
import learn, netgen, clsgen
from gen import G, E
METH = dict(lin=['gd', 'sgd', 'mbgd', 'momentum', 'nag', 'adagrad', 'adadelta', 'adam', 'adamax', 'nadam'], log=['gd', 'mle', 'sgd', 'mbgd'], probit=['gd', 'mle', 'sgd', 'mbgd'], cloglog=['gd', 'mle', 'sgd', 'mbgd'],
            tanh=['gd', 'sgd', 'mbgd'], exp=['gd', 'sgd', 'mbgd'], softmax=['gd', 'sgd', 'mbgd'], svc=['gd', 'sgd', 'mbgd'], dual=['gd'])
def par(r, f):
    nb = dict(momentum=1, nag=1, adagrad=0, adadelta=1, adam=2, adamax=2, nadam=2).get(f)
    return [] if nb is None else [round(r.uniform(.1, .9), 2) for _ in range(nb)] + [r.choice([1e-4, .1])]
def second(ev):
    e = dict(ev); e['a'] = ['m2'] + list(ev['a'][1:]); return e
def asks(g, m, k, kind):
    r = g.r; out = [E('M.new', 'Q', g.mat(r.randint(1, 12), k, kind)), E('E.agree', m, 'Q')]
    if r.random() < .5: out.append(E('E.agree', m, 'X'))
    return out
def linear(g, kind):
    r = g.r; ev, n, k = learn.model(g, kind, r.randint(2, 24), r.randint(1, 6))
    new = ev[-1]; ev = ev[:-1] + [new, second(new)]; vk = 'sint' if kind == 'exp' else 'real'
    for _ in range(r.randint(2, 6)):
        m = r.choice(['m', 'm2']); x = r.random()
        if x < .5:
            f = r.choice(METH[kind]); lr = r.choice([.01, .02, .005]) if kind in ('lin', 'exp') else r.choice([.1, .05])
            ev.append(E('L.train', m, f, lr, r.randint(1, 20), r.randint(1, n), par(r, f)))
        elif x < .8:
            q = asks(g, m, k, vk)
            if kind == 'exp': q[0]['a'][1]['d'] = [[abs(v) for v in row] for row in q[0]['a'][1]['d']]
            ev += q
        else: ev.append(E('E.score', m, 'X', 'y', 'rows' if kind == 'softmax' else 'one'))
    return ev + [E('E.agree', 'm', 'X'), E('E.agree', 'm2', 'X'), E('E.score', 'm', 'X', 'y', 'rows' if kind == 'softmax' else 'one')]
def nets(g, kind):
    r = g.r; ev, n, k, o = netgen.net(g, kind, r.randint(2, 14)); ev.append(second(ev[-1]))
    lab = 'one' if kind in ('ann', 'mlp') else 'rows'; tgt = ev[-1]['a'][3]
    fs = dict(ann=['gd', 'sgd', 'mbgd'] + netgen.OPT, mann=['gd']).get(kind, ['gd', 'sgd', 'mbgd'])
    for _ in range(r.randint(2, 6)):
        m = r.choice(['m', 'm2']); x = r.random()
        if x < .5:
            f = r.choice(fs); ev.append(E('N.train', m, f, r.choice([.1, .05]), r.randint(1, 12), r.randint(1, n), netgen.par(r, f) if f in netgen.OPT else []))
        elif x < .8: ev += asks(g, m, k, 'real')
        else: ev.append(E('E.score', m, 'X', tgt, lab))
    return ev + [E('E.agree', 'm', 'X'), E('E.agree', 'm2', 'X'), E('E.score', 'm', 'X', tgt, lab)]
def classes(g, kind):
    r = g.r
    ev = dict(knn=clsgen.knn, km=lambda g: clsgen.kmeans(g, False), uni=clsgen.uni, out=clsgen.outlier).get(kind, lambda g: clsgen.bayes(g, kind))(g)
    out = []; keep = ('M.new', 'V.new', 'C.knn', 'C.km', 'C.nb', 'C.uni', 'C.out', 'C.knn.k', 'C.train', 'C.km.means')
    for e in ev:
        if e['op'] in keep:
            out.append(e)
            if e['op'] in ('C.knn', 'C.km', 'C.nb', 'C.uni', 'C.out'): out.append(second(e))
        elif e['op'] in ('C.testm', 'C.testv') and not (kind == 'uni' and e['op'] == 'C.testm'):
            if (e['op'] == 'C.testm') != (kind == 'uni'): out.append(E('E.agree', r.choice(['m', 'm2']), e['a'][1]))
        elif e['op'] == 'C.score' and kind in ('knn', 'gauss'): out.append(E('E.score', r.choice(['m', 'm2']), 'X', 'y', 'one'))
    return out
