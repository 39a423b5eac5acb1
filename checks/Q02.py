import vf, xfgen
def run(c):
    for d, m, inv in ((2, 1, 'Algebra'), (3, 1, 'Algebra Turns Sights Planes')) + (((2, 2, 'Algebra'),) if c.tier == 'thorough' else ()):
        c.model('XfTheory', 'INIT TInit\nNEXT TNext\nINVARIANTS %s\nCHECK_DEADLOCK FALSE\nCONSTANTS D = %d\n M = %d\n' % (inv, d, m), name='laws, %d dimensions, grid %d' % (d, m))
    exe = vf.build(['ops_xf.cpp'], 'sfw'); r = c.rng
    for f, n in ((xfgen.basis, 'matrices'), (xfgen.quats, 'quaternions'), (xfgen.planes, 'planes'), (xfgen.flat, 'plane transforms'), (xfgen.solid, 'space transforms')):
        c.conform(exe, 'XfSpec', xfgen.scripts(f, r, c.n(150, 4000)), name=n)
    c.assumptions = []
