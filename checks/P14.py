import vf, fsgen
def run(c):
    exe = vf.build(['ops_fs.cpp'], 'sfw'); r = c.rng
    c.conform(exe, 'FsSpec', fsgen.explore(c, 'd', c.n(4, 5), c.n(6000, 100000)), name='directories, small scope')
    c.conform(exe, 'FsSpec', fsgen.explore(c, 'l', c.n(4, 5), c.n(6000, 100000)), name='links, small scope')
    c.conform(exe, 'FsSpec', [fsgen.dirs(r, 40, handles=r.random() < .3) for _ in range(c.n(1200, 40000))], name='random histories')
    c.assumptions = ['directories are not changed while a file is open', 'permissions always let the owner read and write', 'times, free space and drives are not claimed']
