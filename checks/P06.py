import vf, vargen
def run(c):
    exe = vf.build(['ops_var.cpp'], 'sfw'); r = c.rng
    c.conform(exe, 'VarSpec', vargen.explore(c, ['a'], 2, 2, c.n(5, 7), limit=c.n(6000, 60000)), name='arrays, small scope')
    c.conform(exe, 'VarSpec', vargen.explore(c, ['a', 'd'], 3, 2, c.n(4, 5), limit=c.n(6000, 60000)), name='arrays and dictionaries, small scope')
    for name, f, q in (('arrays', lambda: vargen.array(r, 30), 400), ('arrays of one kind', lambda: vargen.array(r, 30, r.choice([['i'], ['i', 'r'], ['s'], ['b'], ['pi']])), 400),
                       ('dictionaries', lambda: vargen.dictionary(r, 30), 500), ('values', lambda: vargen.values(r, 20), 800), ('texts from formats', lambda: sum((vargen.fmt(r, vargen.V(r)) for _ in range(8)), []), 200)):
        c.conform(exe, 'VarSpec', [f() for _ in range(c.n(q, 25 * q))], name=name)
