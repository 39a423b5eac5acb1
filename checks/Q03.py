import vf, sclgen
def run(c):
    c.model('SclTheory', 'INIT TInit\nNEXT TNext\nINVARIANTS Blend Known Halves Draws\nCHECK_DEADLOCK FALSE\nCONSTANTS N = %d\n Step8 = 3\n' % (6 if c.tier == 'quick' else 14), name='laws and known answers')
    exe = vf.build(['ops_scl.cpp'], 'sfw'); r = c.rng
    for f, n, k in ((sclgen.real, 'real functions', 1), (sclgen.whole, 'steps and integers', 1), (sclgen.words, 'words and hashes', 1), (sclgen.rnd, 'random numbers', 2)):
        c.conform(exe, 'SclSpec', [f(r) for _ in range(c.n(60 * k, 1500 * k))], name=n)
    c.assumptions = []
