import vf, concgen, itertools
from gen import E
theory = concgen.theory
def run(c):
    r = c.rng
    # the design: counting with compare-exchange loops
    T = 'CONSTANTS Threads = {1, 2%s}\n' % ', 3'
    theory(c, 'ConcCount', T + 'Rounds = %d\nLoop = TRUE\nLevel <- LevelV\n' % c.n(2, 3), True, 'Inv Quiet', 'LevelV(t) == t')
    theory(c, 'ConcCount', T + 'Rounds = 2\nLoop = FALSE\nLevel <- LevelV\n', False, 'Inv Quiet', 'LevelV(t) == t')
    # the implementation: every schedule of small programs with few preemptions, and random ones
    exe = concgen.build(); ini = dict(n=1, f=False, r=2)
    nums = [['n.set', 2], ['n.get'], ['n.inc'], ['n.pinc'], ['n.dec'], ['n.pdec'], ['n.add', 2], ['n.padd', 2], ['n.sub', 2], ['n.psub', 2], ['n.xgt', 3], ['n.xgt', 2], ['n.cinc']]
    ev = [E('C.run', dict(ini, n=r.randint(0, 2)), [list(a), [b]], ['all', 4, 400]) for a in itertools.product(nums, repeat=2) for b in nums]
    c.conform(exe, 'LinSpec', [[e] for e in (r.sample(ev, 400) if not c.thorough else ev)], name='numbers, small programs')
    rcs = [['r.ref'], ['r.refval'], ['r.get']]; un = [['r.unref'], ['r.unrefval']]
    progs = [[u] for u in un] + [[a, u] for a in rcs for u in un] + [[u, a] for a in rcs for u in un]
    c.conform(exe, 'LinSpec', [[E('C.run', ini, [a, b], ['all', 4, 400])] for a in progs for b in progs], name='reference counts, small programs')
    s = []
    for w in ('num', 'rc', 'm', 'M', 'b', 'B', 'p', 'w', 'W', 'obj', 'c', 'd', 'plain'):
        s += [[concgen.ev(r, w, 2, 2, ['all', c.n(2, 4), c.n(300, 600)])] for _ in range(c.n(16, 100))] + [[concgen.ev(r, w, 3, 2, ['all', 2, c.n(200, 500)])] for _ in range(c.n(6, 60))]
        s += [[concgen.ev(r, w, r.choice([2, 3, 4]), r.choice([2, 3, 4]), ['random', r.randint(1, 9999), c.n(25, 60)])] for _ in range(c.n(20, 200))]
    r.shuffle(s); c.conform(exe, 'LinSpec', s, name='controlled schedules', cpu=120)
    # threads that really run at the same time, watched for unordered accesses by the thread sanitizer
    exe = concgen.build_free(); s = []
    for w in ('num', 'rc', 'm', 'M', 'b', 'B', 'p', 'w', 'W', 'obj', 'c', 'd', 'plain'):
        s += [[concgen.ev(r, w, r.choice([2, 3, 4]), r.choice([3, 6]), ['random', i, c.n(60, 500)])] for i in range(c.n(4, 40))]
    c.conform(exe, 'LinSpec', s + [[E('C.thread', c.n(100, 2000))]], name='free running', cpu=120)
