import vf
from gen import G, E
def F(*a): return E('F', *a)
FLT = [d + '_' + o for d in ('prewitt', 'sobel', 'scharr', 'roberts') for o in ('horizontal', 'vertical')]
def run(c):
    c.model('ConvTheory', 'INIT TInit\nNEXT TNext\nINVARIANTS IdentityOk LinearOk StrideOk FlipOk DepthOk PoolOk DerivOk\nCHECK_DEADLOCK FALSE\n')
    exe = vf.build(['la.cpp', 'ops_conv.cpp'], 'core')
    g = G(c.rng); r = c.rng; out = []
    def geo(maxn=7):
        n = r.randint(1, maxn); P = r.choice([0, 0, 1, 2, 3]); f = r.randint(1, min(n + 2 * P, 4)); S = r.randint(1, 4)
        return n, f, S, P
    # every small geometry: input n, filter f, stride S, padding P
    for n in range(1, c.n(5, 7)):
        for P in range(0, 3):
            ev = []
            for f in range(1, min(n + 2 * P, 5) + 1):
                ev += [E('M.new', 'a', g.mat(n, n)), E('M.new', 'f', g.mat(f, f))]
                ev += [F('convolve_2d', 'o', 'a', 'f', S, P) for S in (1, 2, 3)]
                if P == 0 and f <= n: ev += [F('pool_2d', 'o', 'a', f, S, t) for S in (1, 2, 3) for t in range(3)]
            out.append(ev)
    for z in range(1, 4):
        for k in range(1, 3):
            for P in range(0, 3):
                n = r.randint(2, 4); f = r.randint(1, 3) if n > 2 else r.randint(1, 2)
                out.append([E('T.new', 't', g.ten(n, n, z)), E('T.new', 'f', g.ten(f, f, z * k))] + [F('convolve_3d', 'o', 't', 'f', S, P) for S in (1, 2, 3)])
    for _ in range(c.n(40, 1000)):
        n, f, S, P = geo()
        out.append([E('M.new', 'a', g.mat(n, n)), E('M.new', 'f', g.mat(f, f)), F('convolve_2d', 'o', 'a', 'f', S, P), F('convolve_2d', 'o', 'o', 'f', 1, f)])
        n, f, S, P = geo(5); z = r.randint(1, 3)
        out.append([E('T.new', 't', g.ten(n, n, z)), E('T.new', 'f', g.ten(f, f, z * r.randint(1, 3))), F('convolve_3d', 'o', 't', 'f', S, P)])
        n = r.randint(1, 7); f = r.randint(1, n)
        out.append([E('M.new', 'a', g.mat(n, n)), E('T.new', 't', g.ten(n, n, r.randint(1, 3)))] + [F('pool_%dd' % d, x + 'o', x, f, r.randint(1, 3), t) for d, x in ((2, 'a'), (3, 't')) for t in range(3)])
        h, w = r.randint(1, 6), r.randint(1, 6)
        out.append([E('M.new', 'a', g.mat(h, w)), E('T.new', 't', g.ten(w, h, r.randint(1, 3)))] + [F('global_pool_2d', '', 'a', t) for t in range(3)] + [F('global_pool_3d', 'v', 't', t) for t in range(3)])
        h, w = r.randint(2, 7), r.randint(2, 7)
        if r.random() < .3: w = h
        out.append([E('M.new', 'a', g.mat(h, w))] + [F(k, 'o' + k, 'a') for k in ('dx', 'dy', 'grad_magnitude', 'grad_orientation')])
        n = r.randint(2, 7); A = g.mat(n, n)
        if r.random() < .4:
            A = dict(r=n, c=n, d=[[3 if i > r.randint(0, n) and j > 1 else 0 for j in range(n)] for i in range(n)])
        if r.random() < .1: A = dict(r=n, c=n, d=[[0] * n for i in range(n)])
        out.append([E('M.new', 'a', A), F('compute_m', 't', 'a'), F('compute_mv', ['x', 'y', 'z'], 'a'), F('harris', '', 'a')])
        s = r.choice([1, 2, .5, 1.5, round(r.uniform(.4, 3), 2)])
        out.append([F('gaussian_2d', '', g.val('real'), g.val('real'), s), F('gaussian_filter_2d', 'o', r.randint(1, 7), s), F('filter', 'f', r.choice(FLT))])
    out.append([F('filter', k, k) for k in FLT] + [F('dx', 'o', k) for k in FLT])
    c.conform(exe, 'ConvSpec', out, name='windows')
    c.assumptions = ['inputs and filters are square, as the library assumes', 'dx and dy need at least two columns/rows']
