import vf
from gen import G, E
def det(m):
    n = len(m)
    if n == 1: return m[0][0]
    return sum((-1) ** j * m[0][j] * det([r[:j] + r[j + 1:] for r in m[1:]]) for j in range(n))
def square(g, r, n, kind, mind=0.5):
    for _ in range(200):
        m = g.mat(n, n, kind)
        if abs(det(m['d'])) >= mind: return m
    m = g.mat(n, n, kind)
    for i in range(n): m['d'][i][i] += 6
    return m if abs(det(m['d'])) >= mind else dict(r=n, c=n, d=[[1 if i == j else 0 for j in range(n)] for i in range(n)])
def fullrank(g, r, rows, cols, kind):
    for _ in range(300):
        m = g.mat(rows, cols, kind)
        gm = [[sum(m['d'][k][i] * m['d'][k][j] for k in range(rows)) for j in range(cols)] for i in range(cols)]
        if det(gm) >= 0.5: return m
    return dict(r=rows, c=cols, d=[[1 if i == j else 0 for j in range(cols)] for i in range(rows)])
def spd(g, r, n):
    b = g.mat(n, n, r.choice(['int', 'real', 'half']))['d']
    return dict(r=n, c=n, d=[[sum(b[k][i] * b[k][j] for k in range(n)) + (1 if i == j else 0) for j in range(n)] for i in range(n)])
def scripts(c, g):
    r = c.rng; out = []
    KS = ['int', 'sint', 'half', 'real', 'pos', 'unit']
    N = c.n(6, 40)
    for n in (1, 2, 3, 4) + ((5,) if c.thorough else ()):
        for _ in range(N):
            k = r.choice(KS)
            m = square(g, r, n, k, 0.05 if k == 'unit' else 0.5); o = g.mat(r.randint(1, 4), r.randint(1, 4), 'int')
            h = [E('M.new', 'a', m), E('M.new', 'o', o)]
            out.append(h + [E('M.det', 'self', 'a', n), E('M.trace', 'a')] + [E('M.det', f, 'a', q, 'o') for q in range(1, n + 1) for f in 'db'] + [E('L', 'detm', '', 'a', q) for q in range(1, n + 1)])
            # singular and arbitrary matrices have a determinant and an adjugate as well
            any_ = g.mat(n, n, r.choice(['sint', 'int', 'real']))
            if n > 1 and r.random() < .4: any_['d'][-1] = list(any_['d'][0])
            out.append([E('M.new', 'a', any_), E('M.new', 'o', o), E('M.det', 'self', 'a', n), E('M.adjoint', 'n', 'b', 'a'), E('M.adjoint', 'o', 'o', 'a'), E('L', 'adjointnm', 'c', 'a'), E('L', 'detm', '', 'a', n)])
            if n > 1:
                q = r.randint(2, n)
                out.append(h + [E('M.cofactor', f, 'a', q, i, j, 'o') for i in range(q) for j in range(q) for f in 'no'] + [E('L', 'cofactornm', '', 'a', q, r.randint(0, q - 1), r.randint(0, q - 1))])
            out.append(h + [E('M.inverse', 'n', 'b', 'a'), E('M.inverse', 'o', 'o', 'a'), E('M.bin', 'mult', 'n', 'c', 'a', 'b'), E('L', 'inversenm', 'd', 'a')])
            out.append(h + [E('M.power', 'b', 'a', p) for p in r.sample([-2, -1, 0, 1, 2, 3, 4, 5], 3)])
            out.append(h + [E('V.new', 'v', g.vec(n, r.choice(KS))), E('M.solve', 'x', 'a', 'v'), E('M.multvec', 'n', 'w', 'a', 'x'), E('L', 'solve', 'y', 'a', 'v')])
            th = r.choice([0, 1, -1, 0.5, 3.14159, r.uniform(-7, 7)])
            for ax in (-1, 0, 1, 2):
                w = 2 if ax == -1 else 3
                A = g.mat(r.randint(1, 4), w, k); sh = [E('M.new', 'a', A), E('M.new', 'o', g.mat(*r.choice([(2, 2), (A['r'], w), (3, 1)]), 'int'))]
                out.append(sh + [E('M.rotmat', 'q', 'a', th, ax), E('M.rotate', 'n', 'b', 'a', th, ax), E('M.rotate', 'b', 'o', 'a', th, ax), E('M.rotate', 'i', 'a', 'a', th, ax)])
            sq = r.randint(2, 4); A = g.mat(r.randint(1, 4), sq, k)
            out.append([E('M.new', 'a', A), E('M.new', 'o', o), E('M.cov', 'n', 'b', 'a'), E('M.cov', 'o', 'o', 'a'), E('L', 'covnm', 'c', 'a')])
        for _ in range(N):
            cols = r.randint(1, min(n, 3)); A = fullrank(g, r, n, cols, r.choice(KS))
            out.append([E('M.new', 'a', A), E('M.new', 'o', g.mat(2, 2, 'int')), E('M.pinverse', 'n', 'b', 'a'), E('M.pinverse', 'o', 'o', 'a'), E('M.bin', 'mult', 'n', 'c', 'b', 'a'), E('L', 'pinversenm', 'd', 'a')])
            out.append([E('M.new', 'a', A), E('L', 'gram_schmidt_process', 'q', 'a'), E('L', 'qrd', ['s', 't'], 'a'), E('L', 'gram_matrix', 'w', 'a')])
            out.append([E('M.new', 'a', spd(g, r, n)), E('L', 'cholesky', ['l', 'm'], 'a')])
            rr, cc = r.choice([(2, 3), (3, 1), (1, 2)])
            out.append([E('M.new', 'a', g.mat(rr, cc, 'int')), E('M.new', 'o', o), E('M.inverse', 'n', 'b', 'a'), E('M.inverse', 'o', 'o', 'a'), E('M.adjoint', 'n', 'b', 'a'), E('M.adjoint', 'o', 'o', 'a'), E('L', 'inversenm', 'b', 'a'), E('L', 'adjointnm', 'b', 'a'), E('L', 'cholesky', ['l', 'm'], 'a')])
    return out
GEN = '''
Mats(n, Es) == { [r |-> n, c |-> n, d |-> d] : d \\in [1..n -> [1..n -> Es]] }
Ev(op, a) == [op |-> op, a |-> a]
All == Mats(1, -2..3) \\cup Mats(2, %s) \\cup Mats(3, %s)
(* every small matrix, and every determinant-like call on it *)
Cmds(st) == IF ~Has(st, "a") THEN {Ev("M.new", <<"a", m>>) : m \\in All}
            ELSE IF Cardinality(DOMAIN st) > 1 THEN {}
            ELSE LET n == st["a"].r IN
                 {Ev("M.adjoint", <<"n", "b", "a">>), Ev("L", <<"adjointnm", "b", "a">>)}
                 \\cup (IF Det(st["a"]) = 0 THEN {} ELSE {Ev("M.inverse", <<"n", "b", "a">>), Ev("L", <<"inversenm", "b", "a">>)})
                 \\cup {Ev("M.power", <<"b", "a", k>>) : k \\in 0..2}
                 \\cup {Ev("M.det", <<"self", "a", n>>), Ev("L", <<"detm", "", "a", n>>)}
StateOK(st) == TRUE
StepOK(st, e, o) == CASE e.op = "M.adjoint" -> Mult(st["a"], o.s["b"]) = ScaleM(Det(st["a"]), Identity(st["a"].r))
                      [] e.op = "M.inverse" -> Same(Mult(st["a"], o.s["b"]), Identity(st["a"].r))
                      [] OTHER -> TRUE
'''
def run(c):
    exe = vf.build(['la.cpp', 'ops_vec.cpp', 'ops_mat.cpp', 'ops_lin.cpp'], 'core')
    c.model('LaTheory', 'INIT Init\nNEXT Next\nINVARIANT Laws\nCHECK_DEADLOCK FALSE\nCONSTANTS Es = {%s}\nN = 2\n' % c.n('0, 1, 2', '-1, 0, 1, 2, 3'.replace('-1, ', '')), name='matrix laws (det, adjugate, inverse, powers, Kronecker)')
    sc = c.gen(vf.gen_module('LaSpec', GEN % c.n(('-1..2', '0..1'), ('-3..3', '-1..1'))), vf.GEN_CFG, props=dict(depth=2), name='all small matrices')
    c.conform(exe, 'LaSpec', sc, name='every transition of the exploration of small matrices')
    c.conform(exe, 'LaSpec', scripts(c, G(c.rng)), name='determinants, inverses, powers, rotations, factorisations')
    c.assumptions = ['orders up to 4 (5 thorough); inverses only of matrices with |det| >= 0.05; results compared to 1e-7 relative or 1e-8 absolute', 'real_t is double in the harness build']
