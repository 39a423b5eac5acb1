import vf, sysgen
def run(c):
    exe = vf.build(['ops_sys.cpp'], 'sfw'); r = c.rng
    c.conform(exe, 'SysSpec', [sysgen.proc(r) for _ in range(c.n(60, 900))] + [sysgen.long(r, k % 2) for k in range(c.n(2, 8))], name='child processes')
    c.assumptions = ['/bin/sh runs the test programs']
