import vf, prjgen
def run(c):
    c.model('PjTheory', 'INIT TInit\nNEXT TNext\nINVARIANTS Faces Gaps\nCHECK_DEADLOCK FALSE\nCONSTANTS N = %d\n' % (4 if c.tier == 'quick' else 9), name='laws')
    exe = vf.build(['ops_prj.cpp'], 'sfw'); r = c.rng
    c.conform(exe, 'PjSpec', [prjgen.face(r) for _ in range(c.n(120, 1500))], name='triangles')
    c.assumptions = []
