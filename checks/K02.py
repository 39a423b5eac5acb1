import vf, clsgen
from gen import G
def run(c):
    c.model('ClassTheory', 'INIT Init\nNEXT Next\nINVARIANTS KM\nCHECK_DEADLOCK FALSE\n')
    exe = vf.build(['la.cpp', 'ops_class.cpp'], 'all'); g = G(c.rng)
    c.conform(exe, 'ClassSpec', [clsgen.kmeans(g, i % 3 == 0) for i in range(c.n(240, 6000))], name='k-means')
    c.assumptions = ['a mean without members keeps its value', 'samples within 1e-9 of two means may go to either']
