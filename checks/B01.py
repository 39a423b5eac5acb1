import vf, clsgen
from gen import G
def run(c):
    c.model('ClassTheory', 'INIT Init\nNEXT Next\nINVARIANTS Bern\nCHECK_DEADLOCK FALSE\n')
    exe = vf.build(['la.cpp', 'ops_class.cpp'], 'all'); g = G(c.rng)
    c.conform(exe, 'ClassSpec', [clsgen.bayes(g, k) for k in ('gauss', 'bern', 'multi') for _ in range(c.n(70, 2000))], name='naive Bayes')
    c.assumptions = ['every class occurs in the training data', 'Gaussian classes have non-zero spread', 'Bernoulli documents do not repeat a word', 'posterior ties (relative 1e-9) may be predicted either way']
