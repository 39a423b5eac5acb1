import vf
from gen import G, E
def run(c):
    exe = vf.build(['la.cpp', 'ops_data.cpp'], 'all')
    g = G(c.rng); r = c.rng; out = []
    def num(): return r.choice([str(r.randint(-20, 20)), '%.3f' % r.uniform(-9, 9), '%.2e' % r.uniform(-9, 9), '0.5', '-7', '1000', '12.25'])
    def style(): return [r.choice(['\n', '\n', '\r\n']), r.random() < .5, r.random() < .2]
    def L(f, k, rows): return E('F.load', f, k, rows, style())
    def rows(n, k): return [[num() for _ in range(k)] for _ in range(n)]
    for _ in range(c.n(60, 1500)):
        k, n = r.randint(1, 6), r.randint(1, 8)
        out.append([L('supervised', k, rows(n, k + 1)), L('unsupervised', k, rows(n, k)), L('simple', 1, rows(n, 2)), L('fires_and_crime', 1, rows(n, 2)), L('supervised', k, rows(n, k + 3))])
        ev = []
        for f, q in (('breast_cancer', 30), ('breast_cancer_svc', 30), ('california_housing', 13)): ev.append(L(f, q, rows(r.randint(1, 3), q + 1)))
        for f in ('iris', 'wine'): ev.append(L(f, 4, [[num() for _ in range(4)] + [str(r.randrange(3))] for _ in range(n)]))
        out.append(ev)
        out.append([E('F.load', 'names', 0, [r.choice(['alpha', 'beta gamma', 'x', 'a,b']) for _ in range(n)], ['\n', r.random() < .5, False])])
        ev = []; 
        for _ in range(r.randint(1, 6)):
            kd = r.choice(['vb', 'vib', 'mb'])
            w = g.vec(r.randint(1, 4), 'real') if kd != 'mb' else [g.vec(2, 'half') for _ in range(r.randint(1, 3))]
            ev.append(E('F.save', r.choice(['p', 'q']), kd, w, g.vec(2, 'real') if kd == 'vib' else [], g.val('real') if kd != 'mb' else g.vec(2, 'int'), r.random() < .6, r.choice([-1, 0, 1, 3])))
        out.append(ev)
    for f in ('mnist_train', 'mnist_test'):
        out.append([L(f, 784, [[str(r.randint(0, 255)) for _ in range(784)] + [str(r.randrange(10))] for _ in range(2)])])
    c.conform(exe, 'DataSpec', out, name='files')
    c.assumptions = ['well-formed files: every line has the fields the loader asks for; the modules do not implement save() themselves (stubs)']
