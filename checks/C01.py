import vf
from gen import G, E
FS = ['mse', 'rmse', 'mae', 'mbe', 'log_loss', 'cross_entropy', 'hinge_loss', 'wasserstein_loss', 'huber_loss', 'hinge_lossw']
def run(c):
    c.model('CostTheory', 'INIT Init\nNEXT Next\nINVARIANTS Derivative Zero HuberDeriv DualDeriv\nCHECK_DEADLOCK FALSE\n')
    exe = vf.build(['la.cpp', 'ops_cost.cpp'], 'core')
    g = G(c.rng); r = c.rng; out = []
    def pair(f, n):
        if f in ('log_loss', 'cross_entropy'): return g.vec(n, 'prob'), (g.vec(n, 'prob') if r.random() < .3 else [r.choice([0, 1]) for _ in range(n)])
        k = r.choice(['int', 'sint', 'half', 'real', 'unit', 'big'])
        h = g.vec(n, k); y = [r.choice([-1, 1]) for _ in range(n)] if f.startswith('hinge') and r.random() < .7 else g.vec(n, k)
        return h, y
    def mat(s, v): return dict(r=s[0], c=s[1], d=[v[i * s[1]:(i + 1) * s[1]] for i in range(s[0])])
    shapes = [(1, 1), (1, 4), (3, 1), (2, 2), (2, 3), (4, 2), (3, 5)]
    for _ in range(c.n(6, 120)):
        for f in FS:
            p = r.choice([.5, 1, 2, round(r.uniform(.1, 3), 2)])
            for via in (['direct'] if f in ('huber_loss', 'hinge_lossw') else ['direct', 'run', 'ptr']):
                n = r.randint(1, 6); h, y = pair(f, n)
                if h == y: h[0] += .25
                ev = [E('V.new', 'h', h), E('V.new', 'y', y), E('V.new', 'w', g.vec(3)), E('V.new', 'z', g.vec(n + 1, 'prob'))]
                ev += [E('C', via, f, False, 'v', 'h', 'y', 'w', p), E('C', via, f, True, 'v', 'h', 'y', 'd', p)]
                if f in ('mse', 'rmse', 'mae', 'mbe'): ev.append(E('C', via, f, False, 'v', 'h', 'h', 'w', p))
                if f not in ('hinge_lossw',): ev.append(E('C', via, f, False, 'v', 'h', 'z', 'w', p))
                if f in ('mse', 'mae', 'hinge_loss', 'huber_loss'): ev.append(E('C', via, f, True, 'v', 'h', 'z', 'q', p))
                out.append(ev)
                s = r.choice(shapes); h, y = pair(f, s[0] * s[1])
                if h == y: h[0] += .25
                t = (s[0] + 1, s[1])
                ev = [E('M.new', 'h', mat(s, h)), E('M.new', 'y', mat(s, y)), E('M.new', 'w', g.mat(2, 2)), E('M.new', 'z', g.mat(t[0], t[1], 'prob'))]
                ev += [E('C', via, f, False, 'm', 'h', 'y', 'w', p), E('C', via, f, True, 'm', 'h', 'y', 'd', p)]
                if f in ('mse', 'rmse', 'mae', 'mbe'): ev.append(E('C', via, f, False, 'm', 'h', 'h', 'w', p))
                if f not in ('hinge_lossw',): ev.append(E('C', via, f, False, 'm', 'h', 'z', 'w', p))
                if f in ('mse', 'mae', 'hinge_loss', 'huber_loss'): ev.append(E('C', via, f, True, 'm', 'h', 'z', 'q', p))
                out.append(ev)
        for _ in range(4):
            n, m = r.randint(1, 5), r.randint(1, 4)
            out.append([E('V.new', 'al', g.vec(n)), E('M.new', 'X', g.mat(n, m)), E('V.new', 'y', [r.choice([-1, 1]) for _ in range(n)]), E('C.dual', 'al', 'X', 'y', ''), E('C.dual', 'al', 'X', 'y', 'd')])
    c.conform(exe, 'CostSpec', out, name='cost x form x selector')
    c.assumptions = ['derivatives are those of the sum over samples (library convention), rmse by the chain rule on the library mean squared error; no empty operands']
