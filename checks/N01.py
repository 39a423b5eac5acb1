import vf
from gen import G, E
def poly(c, t): return dict(c=c, t=[dict(k=k, e=e) for k, e in t])
def run(c):
    c.model('NumTheory', 'INIT TInit\nNEXT TNext\nINVARIANTS MixedOk TaylorOk NewtonOk EulerOk DctOk\nCHECK_DEADLOCK FALSE\n')
    g = G(c.rng); r = c.rng
    ZP = poly([0], [])
    def scripts(prec, n):
        DEG = 4 if prec == 'double' else 3
        out = []
        def N(f, d, p, *a): return E('N', f, d, prec, p, *a)
        co = lambda: r.choice([-3, -2, -1, 1, 2, 3, .5, -1.5])
        def p1(ctr, deg, zero=False): return poly([ctr], [(co(), [k]) for k in range(1 if zero else 0, deg + 1)])
        def pn(ctr, deg, zero=False):
            n = len(ctr); t = []
            for _ in range(r.randint(3, 7)):
                e = [0] * n
                for _ in range(r.randint(1 if zero else 0, deg)): e[r.randrange(n)] += 1
                t.append((co(), e))
            return poly(ctr, t)
        for _ in range(n):
            x = r.choice([-2, -1, 0, 1, 2, .5, -1.5]); y = x + r.choice([-1, 1, .5, 1.5, -2])
            p = p1(x, r.randint(1, DEG), True)
            out.append([N(f, '', p, x) for f in ('num_diffr', 'num_diff_2r', 'num_diff_3r', 'constant_approximationr')] + [N(f + '_approximationr', '', p, x, y) for f in ('linear', 'quadratic', 'cubic')])
            m = r.randint(1, 3); ctr = [r.choice([-1, 0, 1, 2, .5]) for _ in range(m)]
            p = pn(ctr, DEG, True); q = [v + r.choice([-1, 1, .5, 0]) for v in ctr]
            ax = [r.randrange(m) for _ in range(3)]
            out.append([E('V.new', 'c', ctr), E('V.new', 'x', q), N('num_diffv', '', p, 'c', ax[0]), N('num_diff_2v', '', p, 'c', ax[0], ax[1]), N('num_diff_3v', '', p, 'c', *ax),
                        N('jacobian', 'oj', p, 'c'), N('hessian', 'oh', p, 'c'), N('laplacian', '', p, 'c'), N('constant_approximationv', '', p, 'x'),
                        N('linear_approximationv', '', p, 'c', 'x'), N('quadratic_approximationv', '', p, 'c', 'x'), N('cubic_approximationv', '', p, 'c', 'x'),
                        N('third_order_tensor', 't', p, 'c'), N('third_order_tensorvt', ['u%d' % i for i in range(m)], p, 'c')])
            # increasing cubics: one root, derivative at least 1
            s = r.choice([-1, 1]); rt = r.choice([-1, 0, .5, 1.5])
            p = poly([rt], [(s * r.choice([1, 2, 3]), [1]), (s * r.choice([0, .5, 1]), [3]), (r.choice([0, .25, -.5]), [0])])
            x0 = rt + r.choice([-1.5, -1, -.5, .5, 1, 2])
            out.append([N('newton_raphson_method', '', p, x0, k) for k in (0, 1, 2, 3)] + [N('halley_method', '', p, x0, k) for k in (0, 1, 2)])
            v = r.sample([rt - 2, rt - 1, rt - .5, rt + .75, rt + 1, rt + 1.5], 3)
            out.append([E('V.new', 'v', v)] + [N('inv_quadratic_interpolation', '', p, 'v', k) for k in (0, 1, 2)])
            h = r.choice([.5, .25, 1, .125]); q0 = r.choice([-1, 0, 1, 2]); e = q0 + r.choice([0, .5, 1, 2, 1.3, -1])
            out.append([N('eulerian_methodr', '', pn([r.choice([0, 1])], 2), q0, r.choice([0, 1, -2.5]), e, h), N('eulerian_methodv', '', pn([0, r.choice([0, 1])], 1), q0, r.choice([0, 1, -.5]), e, h),
                        N('growth_method', '', ZP, g.val('real'), r.choice([.5, -1, 0, .1]), g.val('real'))])
            H = r.choice([[(1, [2, 0]), (1, [0, 2])], [(-2, [2, 0]), (-1, [0, 2]), (1, [1, 1])], [(1, [2, 0]), (-3, [0, 2])], [(1, [2, 0]), (1, [0, 2]), (4, [1, 1])], [(-1, [2, 0]), (2, [0, 2])], [(3, [1, 1])]])
            ct = [r.choice([0, 1, -.5]), r.choice([0, 2, .5])]
            out.append([E('V.new', 'c', ct), N('second_partial_derivative_test', '', poly(ct, H), 'c')])
            a = dict(r=r.randint(1, 5), c=r.randint(1, 5)); a['d'] = [[r.randint(0, 255) for _ in range(a['c'])] for _ in range(a['r'])]
            out.append([E('M.new', 'a', a), N('dct', 'b', ZP, 'a')])
        return out
    c.conform(vf.build(['la.cpp', 'ops_num.cpp'], 'core'), 'NumSpec', scripts('double', c.n(40, 700)), name='double')
    c.conform(vf.build(['la.cpp', 'ops_num.cpp'], 'core', float_real=True), 'NumSpec', scripts('float', c.n(8, 150)), name='float')
    c.assumptions = ['functions are low-degree polynomials, whose derivatives the specification knows in closed form', 'finite differences are compared within 1% (double) or 15% (float)', 'the second derivative test is claimed for two variables only: the other case rests on eigen(), which is not claimed']
