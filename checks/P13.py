import vf, allocgen, concgen
def run(c):
    exe = vf.build(['ops_alloc.cpp'], 'sfw'); r = c.rng
    c.conform(exe, 'AllocSpec', allocgen.explore(c, 6, 1, False, [1, 2, 3, 6], c.n(5, 6), limit=c.n(4000, 60000)), name='pools, small scope')
    c.conform(exe, 'AllocSpec', allocgen.explore(c, 6, 1, True, [1, 2, 4], c.n(6, 7), limit=c.n(4000, 60000)), name='pools with locks, small scope')
    c.conform(exe, 'AllocSpec', allocgen.explore(c, 8, 4, False, [1, 3, 4, 5], c.n(5, 6), maxe=2, limit=c.n(3000, 60000)), name='aligned pools, small scope')
    c.conform(exe, 'AllocSpec', [allocgen.sane(allocgen.pool(r, 60)) for _ in range(c.n(700, 15000))], name='pools, random histories')
    c.conform(exe, 'AllocSpec', [allocgen.pages(r, 60) for _ in range(c.n(500, 15000))], name='pages, random histories')
    # one allocator used by several threads
    exe = concgen.build()
    s = [[concgen.ev(r, 'cells', 2, 3, ['all', c.n(2, 4), c.n(200, 600)])] for _ in range(c.n(20, 150))] + [[concgen.ev(r, 'cells', r.choice([2, 3, 4]), r.choice([3, 5]), ['random', r.randint(1, 9999), c.n(25, 60)])] for _ in range(c.n(20, 200))]
    c.conform(exe, 'LinSpec', s, name='cells, controlled schedules', cpu=120)
    exe = concgen.build_free()
    c.conform(exe, 'LinSpec', [[concgen.ev(r, 'cells', r.choice([2, 3, 4]), r.choice([4, 8]), ['random', i, c.n(60, 500)])] for i in range(c.n(6, 60))], name='cells, free running', cpu=120)
