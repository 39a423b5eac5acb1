import vf, netgen
from gen import G
def run(c):
    c.model('NetTheory', 'INIT Init\nNEXT Next\nINVARIANTS RowWise\nCHECK_DEADLOCK FALSE\n')
    exe = vf.build(['la.cpp', 'ops_net.cpp'], 'all'); g = G(c.rng)
    c.conform(exe, 'NetSpec', [netgen.layers(g) for _ in range(c.n(400, 9000))], name='layers')
    c.assumptions = ['parameters are set on layers that are already initialised', 'the width of an input is that of the weights']
