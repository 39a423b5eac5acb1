import vf
from gen import G, E
UN = ['lognm', 'log10nm', 'expnm', 'erfnm', 'sqrtnm', 'cbrtnm', 'absnm', 'sinnm', 'cosnm', 'transposenm']
UNV = ['lognv', 'log10nv', 'expnv', 'erfnv', 'sqrtnv', 'cbrtnv', 'absv', 'sinnv', 'cosnv']
BIN = ['additionnm', 'subtractionnm', 'hadamard_productnm', 'division_element_wisenvnm', 'maxnm']
BINV = ['additionnv', 'subtractionnv', 'hadamard_productnv', 'division_element_wisenv', 'maxnvv', 'additionv', 'subtractionv', 'hadamard_productv']
def L(f, d, *a): return E('L', f, d, *a)
def scripts(c, g):
    r = c.rng; out = []
    shapes = [(0, 0), (1, 1), (1, 3), (3, 1), (2, 2), (2, 3), (3, 2), (3, 3), (4, 2)] + ([(5, 7), (6, 4), (4, 4), (1, 8)] if c.thorough else [(5, 4)])
    def kind(f): return r.choice(['pos', 'pos', 'int', 'half']) if f.startswith(('log', 'sqrt')) else ('pos' if f.startswith('cbrt') else r.choice(['int', 'sint', 'half', 'real', 'pos']))
    def m(n, s, k=None): return E('M.new', n, g.mat(s[0], s[1], k or r.choice(['int', 'sint', 'half', 'real', 'pos'])))
    def v(n, k, kk=None): return E('V.new', n, g.vec(k, kk or r.choice(['int', 'sint', 'half', 'real', 'pos'])))
    for _ in range(c.n(2, 12)):
        for s in shapes:
            s2 = r.choice([q for q in shapes if q != s])
            for f in UN: out.append([m('a', s, kind(f)), L(f, 'd', 'a')] + ([] if f == 'transposenm' else [L(f, 'e', 'null')]))
            for f in BIN: out.append([m('a', s), m('b', s), m('z', s2), L(f, 'd', 'a', 'b'), L(f, 'e', 'b', 'a'), L(f, 'f', 'a', 'a'), L(f, 'g', 'a', 'z'), L(f, 'g', 'z', 'a'), L(f, 'd', 'a', 'null'), L(f, 'd', 'null', 'b')])
            for q in [q for q in shapes if q[0] == s[1]] + [s2]: out.append([m('a', s), m('b', q), L('matmultnm', 'd', 'a', 'b'), L('matmultnm', 'd', 'a', 'null'), L('matmultnm', 'd', 'null', 'a')])
            if s != (0, 0):
                for q in r.sample([q for q in shapes if q != (0, 0)], 3): out.append([m('a', s), m('b', q), L('kronecker_productnm', 'd', 'a', 'b'), L('kronecker_productnm', 'd', 'a', 'null')])
            for f in ('scalar_multiplynm', 'scalar_addnm'): out.append([m('a', s), L(f, 'd', 'a', g.val('real'))])
            out.append([m('a', s, 'pos'), L('exponentiatenm', 'd', 'a', r.choice([0, 1, 2, 3, -1, 0.5]))])
            out.append([m('a', s), L('gram_matrix', 'd', 'a'), L('flattenvvnv', 'v', 'a')])
            out.append([m('a', s), L('gaussian_noise', '', s[0], s[1]), L('zeromatnm', 'd', *s), L('onematnm', 'e', *s), L('fullnm', 'f', s[0], s[1], r.randint(-4, 4)), L('identitym', 'g', s[0])])
            if s[1] > 1: out.append([m('a', s), L('covnm', 'd', 'a')])
            if 0 < s[1] <= 4:
                A = g.mat(s[0], s[1], 'sint'); 
                if s[0] > 1 and r.random() < .5: A['d'][1] = list(A['d'][0])
                out.append([E('M.new', 'a', A), L('linear_independence_checker', '', 'a')])
            for n in (s[1], s[1] + 1):
                out.append([m('a', s), v('v', n), L('mat_vec_addnm', 'd', 'a', 'v'), L('subtract_matrix_rowsnv', 'w', 'v', 'a')] + ([L('mat_vec_multnv', 'x', 'a', 'v')]) + [L('mat_vec_addnm', 'd', 'a', 'null'), L('mat_vec_addnm', 'd', 'null', 'v')])
            k = r.randint(1, 4); As = ['a%d' % i for i in range(k)]; Bs = ['b%d' % i for i in range(k)]; Ds = ['d%d' % i for i in range(k)]; Os = ['o%d' % i for i in range(r.randint(0, 4))]
            ss = [s] * k if r.random() < .5 else [r.choice(shapes) for _ in range(k)]
            h = [m(n, q) for n, q in zip(As, ss)] + [m(n, q) for n, q in zip(Bs, ss)]
            hp = [m(n, q, 'pos') for n, q in zip(As, ss)]
            for f in ('additionnvt', 'division_element_wisenvnvt', 'maxnvt'): out.append(h + [L(f, Ds, As, Bs), L(f, Ds, Bs, As)])
            out.append(h + [L('division_element_wisevt', '', As, Bs)])
            out.append(hp + [L('sqrtnvt', Ds, As), L('exponentiatenvt', Ds, As, r.choice([0, 1, 2, 3, -1, 0.5]))])
            out.append(h + [L('absnvt', Ds, As), L('scalar_multiplynvt', Bs, As, g.val('real')), L('scalar_addnvt', Ds, As, g.val('real'))])
            out.append(h + [m(n, r.choice(shapes)) for n in Os] + [L('resizencvt', '', As), L('resizevt', '', As, Os)])
        for n in [0, 1, 2, 3, 5, 8]:
            n2 = r.choice([q for q in range(6) if q != n])
            for f in UNV: out.append([v('a', n, kind(f)), L(f, 'd', 'a')] + ([] if f == 'transposenm' else [L(f, 'e', 'null')]))
            for f in BINV: out.append([v('a', n), v('b', n), v('z', n2), v('d', r.choice([n, n2])), L(f, 'd', 'a', 'b'), L(f, 'd', 'b', 'a'), L(f, 'd', 'a', 'a')] + ([] if f in ('additionv', 'subtractionv', 'hadamard_productv') else [L(f, 'd', 'd', 'd')]) + [L(f, 'd', 'a', 'z') , L(f, 'd', 'a', 'null'), L(f, 'd', 'null', 'b')])
            for f in ('scalar_multiplynv', 'scalar_addnv', 'scalar_multiplyv', 'scalar_addv'): out.append([v('a', n), v('d', r.choice([n, n2])), L(f, 'd', 'a', g.val('real')), L(f, 'd', 'null', 2), L(f, 'a' if f.endswith('yv') or f.endswith('addv') else 'd', 'a', g.val('int'))])
            out.append([v('a', n, 'pos'), L('exponentiatenv', 'd', 'a', r.choice([0, 1, 2, 3, -1, 0.5]))])
            for f in ('dotnv', 'euclidean_distance', 'euclidean_distance_squared'): out.append([v('a', n), v('b', n), v('z', n2), L(f, '', 'a', 'b'), L(f, '', 'b', 'a'), L(f, '', 'a', 'z')] + ([] if f == 'dotnv' else [L(f, '', 'a', 'null')]))
            for f in ('norm_sqv', 'sum_elementsv'): out.append([v('a', n), L(f, '', 'a')])
            if n:
                for f in ('maxvr', 'minvr'): out.append([v('a', n), L(f, '', 'a')])
                out.append([v('a', n, 'pos'), v('b', n), L('vector_projection', 'p', 'a', 'b')])
            out.append([L('zerovecnv', 'a', n), L('onevecnv', 'b', n), L('fullnv', 'c', n, r.randint(-3, 3)), L('outer_product', 'm', 'b', 'c'), L('diagnm', 'k', 'c')])
            out.append([v('a', n), v('b', n2), v('e', 0), L('flattenmnv', 'f', ['a', 'b', 'e', 'a'][:r.randint(0, 4)]), L('outer_product', 'm', 'a', 'b')])
    # chains that feed results into later calls
    for _ in range(c.n(150, 2500)):
        n = r.randint(1, 4); ev = [E('M.new', k, g.mat(n, n, 'unit')) for k in 'abd'] + [E('V.new', k, g.vec(n, 'unit')) for k in 'uvw']
        for _ in range(10):
            x, y, d = (r.choice('abd') for _ in range(3)); p, q, o = (r.choice('uvw') for _ in range(3))
            ev.append(r.choice([L(r.choice(['additionnm', 'subtractionnm', 'hadamard_productnm', 'maxnm', 'matmultnm']), d, x, y), L(r.choice(['erfnm', 'sinnm', 'cosnm', 'absnm', 'transposenm']), d, x),
                L('mat_vec_multnv', o, x, p), L('outer_product', d, p, q), L('mat_vec_addnm', d, x, p), L('additionnv', o, p, q), L('subtract_matrix_rowsnv', o, p, x), L('diagnm', d, p), L('scalar_multiplynm', d, x, g.val('unit'))]))
        out.append(ev)
    return out
def run(c):
    exe = vf.build(['la.cpp', 'ops_vec.cpp', 'ops_mat.cpp', 'ops_lin.cpp'], 'core')
    c.conform(exe, 'LaSpec', scripts(c, G(c.rng)), name='facade function x shape, and chains')
    c.assumptions = ['real_t is double in the harness build; results compared to 1e-7 relative or 1e-8 absolute', 'only conforming inputs plus the rejections the functions test for', 'eigen(), svd() and the definiteness checkers built on them are not claimed']
