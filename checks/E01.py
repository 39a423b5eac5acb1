import vf, agree
from gen import G
def run(c):
    c.model('NetTheory', 'INIT Init\nNEXT Next\nINVARIANTS RowWise\nCHECK_DEADLOCK FALSE\n')
    g = G(c.rng)
    for ops, name, make in (('ops_learn.cpp', 'single-layer learners', [(agree.linear, k, 14) for k in agree.METH]),
                            ('ops_net.cpp', 'networks', [(agree.nets, k, 20) for k in ('ann', 'mann', 'mlp', 'snet', 'ae')]),
                            ('ops_class.cpp', 'neighbours, clusters, naive Bayes, outliers, univariate', [(agree.classes, k, 20) for k in ('knn', 'km', 'gauss', 'bern', 'multi', 'uni', 'out')])):
        exe = vf.build(['la.cpp', ops], 'all')
        c.conform(exe, 'EnsSpec', [f(g, k) for f, k, n in make for _ in range(c.n(n, n * 20))], name=name)
    c.assumptions = ['finite training histories (moderate rates)', 'score is compared for the learners that report accuracy']
