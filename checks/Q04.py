import vf, prjgen
def run(c):
    c.model('PjTheory', 'INIT TInit\nNEXT TNext\nINVARIANTS Maps Sides Angles\nCHECK_DEADLOCK FALSE\nCONSTANTS N = %d\n' % (4 if c.tier == 'quick' else 9), name='laws')
    exe = vf.build(['ops_prj.cpp'], 'sfw'); r = c.rng
    c.conform(exe, 'PjSpec', [prjgen.proj(r) for _ in range(c.n(60, 1500))], name='projections')
    c.assumptions = []
