import vf, sysgen
def run(c):
    c.model('SysTheory', 'INIT TInit\nNEXT TNext\nINVARIANTS Fours Sixes Texts\nCHECK_DEADLOCK FALSE\nCONSTANTS N = %d\n Sent = 0\n' % (5 if c.tier == 'quick' else 12), name='laws of addresses')
    c.model('SysTheory', 'INIT SInit\nNEXT SNext\nINVARIANTS Ordered\nCHECK_DEADLOCK FALSE\nCONSTANTS N = 2\n Sent = %d\n' % (3 if c.tier == 'quick' else 4), name='byte streams')
    exe = vf.build(['ops_sys.cpp'], 'sfw'); r = c.rng
    c.conform(exe, 'SysSpec', [sysgen.addr(r) for _ in range(c.n(80, 2000))], name='addresses')
    c.conform(exe, 'SysSpec', [sysgen.sock(r) for _ in range(c.n(60, 1500))], name='streams')
    c.assumptions = ['the loopback interface delivers IPv4 streams']
