import vf, clsgen
from gen import G
def run(c):
    c.model('ClassTheory', 'INIT Init\nNEXT Next\nINVARIANTS Chebyshev LineOk\nCHECK_DEADLOCK FALSE\n')
    exe = vf.build(['la.cpp', 'ops_class.cpp'], 'all'); g = G(c.rng)
    c.conform(exe, 'ClassSpec', [f(g) for f in (clsgen.outlier, clsgen.uni) for _ in range(c.n(120, 3000))], name='outliers and line')
    c.assumptions = ['scores within 1e-9 of the threshold may be reported or not', 'the inputs of a line fit are not all equal']
