import vf
from gen import G, E
BIN = ['hadamard_product', 'division_element_wise', 'add', 'sub', 'max', 'min']
UN = ['log', 'log10', 'exp', 'erf', 'sqrt', 'cbrt', 'abs', 'sin', 'cos']
SCA = ['scalar_multiply', 'scalar_add', 'exponentiate']
RED = ['max_element', 'max_element_index', 'min_element', 'min_element_index', 'norm_2', 'norm_sq', 'sum_elements']
RED2 = ['dot', 'euclidean_distance', 'euclidean_distance_squared']
def scripts(c, g):
    r = c.rng
    out = []
    sizes = [0, 1, 2, 3, 4, 5, 17] + ([8, 33, 64, 100] if c.thorough else [40])
    reps = c.n(1, 6)
    def start(n, m, k=None):
        kind = r.choice(['int', 'sint', 'half', 'real', 'pos'])
        return [E('V.new', 'a', g.vec(n, kind)), E('V.new', 'b', g.vec(m, kind)), E('V.new', 'd', g.vec(r.choice([0, n, n + 1, m, 7]) if k is None else k))]
    for _ in range(reps):
        for n in sizes:
            for m in [n, n, n + 1] + ([n - 1] if n else []):
                for op in BIN:
                    for f in 'inb':
                        for x, y, d in [('a', 'b', 'd'), ('a', 'b', 'a'), ('a', 'b', 'b'), ('a', 'a', 'd'), ('a', 'a', 'a'), ('a', 'null', 'd'), ('null', 'a', 'd')]:
                            if f != 'b' and x == 'null': continue
                            if f == 'i': d = x
                            out.append(start(n, m) + [E('V.bin', op, f, d, x, y), E('V.bin', r.choice(['add', 'sub', 'hadamard_product']), 'b', 'd', 'a', 'b'), E('V.red', 'sum_elements', 'd')])
                for op in RED2:
                    out.append(start(n, m) + [E('V.red2', op, 'a', 'b'), E('V.red2', op, 'b', 'a'), E('V.red2', op, 'a', 'a'), E('V.red2', op, 'a', 'null')])
            for op in UN:
                for f in 'inb':
                    for x, d in [('a', 'd'), ('a', 'a'), ('null', 'd')]:
                        if f != 'b' and x == 'null': continue
                        if f == 'i': d = x
                        st = start(n, n)
                        if op == 'cbrt': st[0] = E('V.new', 'a', g.vec(n, 'pos'))   # computed as a real power: negative operands are not specified
                        out.append(st + [E('V.un', op, f, d, x)])
            for op in SCA:
                for f in 'inb':
                    for x, d in [('a', 'd'), ('a', 'a')]:
                        if f == 'i': d = x
                        out.append(start(n, n) + [E('V.sca', op, f, d, x, g.val(r.choice(['int', 'real', 'half'])) if op != 'exponentiate' else r.choice([0, 1, 2, 3, -1, 0.5]))])
            for op in RED:
                for _ in range(3):
                    out.append(start(n, n) + [E('V.red', op, 'a'), E('V.red', op, 'b')])
            for k in ['vecn_zero', 'vecn_one', 'vecn_full', 'create_vec_zero', 'create_vec_one', 'create_vec_full']:
                out.append(start(n, n) + [E('V.const', 'd', k, 'a', n, r.randint(-3, 3))])
            out.append(start(n, n) + [E('V.diag', 'm', 'a'), E('V.diag', 'm', 'b')])
            for m in [0, 1, n, 4]:
                out.append(start(n, m) + [E('V.outer', 'm', 'a', 'b'), E('V.outer', 'm', 'b', 'b')])
            for rows in (0, 1, 2, 5):
                for cols in (n, n + 1):
                    for f in 'inb':
                        for x, d in [('a', 'd'), ('a', 'a')]:
                            if f == 'i': d = x
                            out.append(start(n, n) + [E('M.new', 'm', g.mat(rows, cols)), E('V.submat', f, d, x, 'm')])
        for _ in range(20):
            out.append([E('V.new', 'a', g.vec(3)), E('V.new', 'b', g.vec(3)), E('V.cross', 'd', 'a', 'b'), E('V.cross', 'e', 'd', 'a'), E('V.cross', 'd', 'b', 'b')])
    # chains: the result of one operation is the operand of the next
    for _ in range(c.n(400, 6000)):
        n = g.size(1, 9, 50); ev = start(n, n, n); ks = ['a', 'b', 'd']
        for _ in range(12):
            x, y, d = r.choice(ks), r.choice(ks), r.choice(ks)
            f = r.choice('inb')
            if f == 'i': d = x
            k = r.randint(0, 3)
            if k == 0: ev.append(E('V.bin', r.choice(['hadamard_product', 'add', 'sub', 'max', 'min']), f, d, x, y))
            elif k == 1: ev.append(E('V.un', r.choice(['erf', 'sin', 'cos', 'abs']), f, d, x))
            elif k == 2: ev.append(E('V.sca', r.choice(['scalar_multiply', 'scalar_add']), f, d, x, g.val('unit')))
            else: ev.append(r.choice([E('V.red', r.choice(RED), x), E('V.red2', r.choice(RED2), x, y)]))
        out.append(ev)
    return out
def run(c):
    exe = vf.build(['la.cpp', 'ops_vec.cpp'], 'core')
    c.conform(exe, 'LaSpec', scripts(c, G(c.rng)), name='op x form x alias x size, and chains')
    c.assumptions = ['real_t is double in the harness build; results compared to 1e-9 relative or absolute', 'element values to 1e3, sizes to 100']
