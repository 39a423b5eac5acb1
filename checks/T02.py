import vf
from gen import G, E
BIN = ['hadamard_product', 'division_element_wise', 'add', 'sub', 'max']
def scripts(c, g):
    r = c.rng; out = []
    shapes = [(1, 1, 1), (1, 2, 3), (3, 1, 2), (2, 3, 1), (2, 2, 2), (3, 3, 2), (4, 2, 3)] + ([(5, 4, 3), (1, 1, 6), (6, 1, 1), (2, 5, 2)] if c.thorough else [])
    def start(*ss):
        kind = r.choice(['int', 'sint', 'half', 'real', 'pos'])
        return [E('T.new', n, g.ten(*s, kind)) for n, s in zip('abd', ss)]
    for _ in range(c.n(3, 30)):
        for s in shapes:
            ds = r.choice(shapes)
            for f in 'inb':
                for op in BIN:
                    for x, y, d in [('a', 'b', 'd'), ('a', 'b', 'a'), ('a', 'b', 'b'), ('a', 'a', 'd'), ('a', 'a', 'a')]:
                        if f == 'i': d = x
                        out.append(start(s, s, r.choice([s, ds])) + [E('T.bin', op, f, d, x, y), E('T.query', d)])
                    s2 = r.choice([q for q in shapes if q != s] + [(s[1], s[0], s[2]), (s[0], s[2], s[1])])
                    if s2 != s:
                        out.append(start(s, s2, ds) + [E('T.bin', op, f, 'a' if f == 'i' else 'd', 'a', 'b'), E('T.query', 'a')])
                    out.append(start(s, s, ds) + [E('T.bin', op, f, 'a' if f == 'i' else 'd', 'a', 'null')])
                for op in ('sqrt', 'abs'):
                    for x, d in [('a', 'd'), ('a', 'a')]:
                        if f == 'i': d = x
                        out.append(start(s, s, r.choice([s, ds])) + [E('T.un', op, f, d, x)])
                for op in ('scalar_multiply', 'scalar_add', 'exponentiate'):
                    for x, d in [('a', 'd'), ('a', 'a')]:
                        if f == 'i': d = x
                        out.append(start(s, s, r.choice([s, ds])) + [E('T.sca', op, f, d, x, r.choice([0, 1, 2, 3, -1]) if op == 'exponentiate' else g.val(r.choice(['int', 'real', 'half'])))])
            for f in 'no':
                out.append(start(s, s, ds) + [E('V.new', 'v', g.vec(r.randint(0, 5))), E('T.flatten', f, 'v', 'a')])
            out.append(start(s, s, ds) + [E('V.new', 'v', g.vec(s[0])), E('M.new', 'm', g.mat(1, 2)), E('T.vec_mult', 'm', 'a', 'v')])
    for _ in range(c.n(200, 4000)):
        s = tuple(r.randint(1, 4) for _ in range(3)); ks = 'abd'
        ev = [E('T.new', k, g.ten(*s, 'unit')) for k in ks] + [E('V.new', 'v', g.vec(3)), E('V.new', 'x', g.vec(s[0]))]
        for _ in range(10):
            x, y, d, f = r.choice(ks), r.choice(ks), r.choice(ks), r.choice('inb')
            if f == 'i': d = x
            k = r.randint(0, 4)
            if k <= 1: ev.append(E('T.bin', r.choice(['hadamard_product', 'add', 'sub', 'max']), f, d, x, y))
            elif k == 2: ev.append(E('T.un', 'abs', f, d, x))
            elif k == 3: ev.append(E('T.sca', r.choice(['scalar_multiply', 'scalar_add', 'exponentiate']), f, d, x, r.choice([1, 2, 3, 2])))
            else: ev.append(r.choice([E('T.flatten', 'o', 'v', x), E('T.vec_mult', 'w', x, 'x')]))
        out.append(ev)
    return out
def run(c):
    exe = vf.build(['la.cpp', 'ops_vec.cpp', 'ops_mat.cpp', 'ops_ten.cpp', 'ops_lin.cpp'], 'core')
    c.conform(exe, 'LaSpec', scripts(c, G(c.rng)), name='op x form x alias x shape, and chains')
    c.assumptions = ['real_t is double in the harness build; results compared to 1e-9 relative or absolute', 'shapes to 6x5x6']
