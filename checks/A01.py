import vf
from gen import G, E
FNS = ['linear', 'sigmoid', 'swish', 'mish', 'sinc', 'softmax', 'softplus', 'softsign', 'adj_softmax', 'cloglog', 'logit', 'gaussian_cdf', 'relu', 'gelu', 'sign', 'unit_step', 'sinh', 'cosh', 'tanh',
       'csch', 'sech', 'coth', 'arsinh', 'arcosh', 'artanh', 'arcsch', 'arsech', 'arcoth']
VIA = ['direct', 'run', 'rund', 'ptr', 'ptrd']
NZ = {'sinc', 'csch', 'coth', 'arcsch', 'mish'}
def val(g, f):
    r = g.r
    if f in ('logit', 'arsech'): return g.val('prob')
    if f == 'artanh': return round(r.uniform(-.95, .95), 3)
    if f == 'arcosh': return round(r.uniform(1.1, 5), 3)
    if f == 'arcoth': return round(r.uniform(1.1, 5), 3) * r.choice([1, -1])
    k = r.choice(['int', 'half', 'real', 'real', 'unit'] + ([] if f in NZ else ['zero', 'tiny']))
    if k == 'half': return r.randint(-8, 8) / 2 or (2 if f in NZ else 0)
    x = g.val(k)
    return (x if abs(x) > .05 else .75) if f in NZ else x
def run(c):
    c.model('ActTheory', 'INIT Init\nNEXT Next\nINVARIANTS Derivative Rows\nCHECK_DEADLOCK FALSE\n')
    exe = vf.build(['la.cpp', 'ops_act.cpp'], 'core')
    g = G(c.rng); r = c.rng; out = []
    shapes = [(0, 0), (1, 1), (1, 3), (3, 1), (2, 2), (2, 3), (4, 2)] + ([(5, 7), (3, 3)] if c.thorough else [])
    for _ in range(c.n(1, 12)):
        for f in FNS:
            for d in (False, True):
                for via in VIA:
                    V = lambda: val(g, f)
                    ev = [E('A', via, f, d, 'r', V(), '') for _ in range(4)]
                    if f not in NZ and f not in ('logit', 'arsech', 'arcosh', 'arcoth') and not (f == 'relu'): ev.append(E('A', via, f, d, 'r', 0, ''))
                    out.append(ev)
                    for n in (0, 1, r.randint(2, 6)): out.append([E('V.new', 'a', [V() for _ in range(n)]), E('A', via, f, d, 'v', 'a', 'b')])
                    for s in r.sample(shapes, 2): out.append([E('M.new', 'a', dict(r=s[0], c=s[1], d=[[V() for _ in range(s[1])] for _ in range(s[0])])), E('A', via, f, d, 'm', 'a', 'b')])
        for d in (False, True):
            for n in range(0, 6): out.append([E('V.new', 'a', g.vec(n, 'real')), E('A', 'jacobian', '', d, 'v', 'a', 'b')])
            for s in shapes: out.append([E('M.new', 'a', g.mat(s[0], s[1], 'real')), E('A', 'jacobians', '', d, 'm', 'a', '')])
            for f in ('leaky_relu', 'elu', 'selu'):
                for _ in range(6):
                    p = [g.val('prob'), round(r.uniform(.1, 2), 2)]; s = r.choice(shapes)
                    out.append([E('A', 'param', f, d, 'r', x, '', p) for x in (0, g.val('real'), g.val('real'), -1.5, 2)] + [E('V.new', 'a', g.vec(r.randint(0, 5))), E('A', 'param', f, d, 'v', 'a', 'b', p), E('M.new', 'm', g.mat(s[0], s[1])), E('A', 'param', f, d, 'm', 'm', 'n', p)])
    # large arguments of the normalised activation stay finite
    for _ in range(c.n(20, 200)):
        n = r.randint(2, 5); v = [round(r.uniform(-600, 600), 1) for _ in range(n)]; b = round(r.uniform(900, 5000), 1)
        out.append([E('V.new', 'a', [b + round(r.uniform(-9, 9), 2) for _ in range(n)]), E('A', 'direct', 'adj_softmax', r.random() < .5, 'v', 'a', 'b')])
    c.conform(exe, 'ActSpec', out, name='function x form x selector')
    c.assumptions = ['arguments inside the domain of each function; softmax and adjusted softmax derivative passes return the normalised row by library convention', 'gelu compared to 2e-5 (the library rounds constants to six digits), all others to 1e-8']
