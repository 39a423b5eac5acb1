import vf, clsgen
from gen import G
def run(c):
    c.model('ClassTheory', 'INIT Init\nNEXT Next\nINVARIANTS Knn\nCHECK_DEADLOCK FALSE\n')
    exe = vf.build(['la.cpp', 'ops_class.cpp'], 'all'); g = G(c.rng)
    c.conform(exe, 'ClassSpec', [clsgen.knn(g) for _ in range(c.n(250, 6000))], name='neighbours')
    c.assumptions = ['k between one and the number of samples', 'samples within 1e-9 of the boundary distance count as ties, any of which may be selected']
