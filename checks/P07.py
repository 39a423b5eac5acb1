import vf, concgen, itertools, importlib
from gen import E
theory = concgen.theory
def run(c):
    r = c.rng
    # the design: the table of names under concurrent making and dropping
    K = 'CONSTANTS Threads = {1, 2%s}\nTexts = {10, 20}\nRounds = %d\n'
    theory(c, 'ConcNames', K % (', 3', 1) + 'Guarded = TRUE\n', True)
    theory(c, 'ConcNames', K % ('', c.n(2, 3)) + 'Guarded = TRUE\n', True, extra='PROPERTY Finish\n')
    theory(c, 'ConcNames', K % ('', 2) + 'Guarded = FALSE\n', False)
    exe = concgen.build(); ini = dict(n=0, f=False, r=1); one = ['all', 0, 1]
    # one thread: every short history over two registers and two texts, and long random ones
    A = [['s.make', 0, 1, 'ch'], ['s.make', 0, 1, 'static'], ['s.make', 1, 1, 'str'], ['s.make', 1, 2, 'ch'], ['s.make', 0, 2, 'static'], ['s.copy', 0, 1], ['s.copy', 1, 1], ['s.drop', 0], ['s.drop', 1], ['s.search', 1, 1, 'ch'], ['s.search', 0, 2, 'wide'], ['s.search', 0, 1, 'str']]
    P = [list(p) for k in range(1, c.n(4, 5)) for p in itertools.product(A, repeat=k)]
    if not c.thorough: P = r.sample(P, 1500)
    c.conform(exe, 'LinSpec', [[E('C.run', ini, [p + [['s.eq', 0, 1], ['s.text', 0], ['s.text', 1]]], one)] for p in P], name='one thread, short histories')
    c.conform(exe, 'LinSpec', [[E('C.run', ini, [concgen.names1(r, 60)], one)] for _ in range(c.n(300, 6000))], name='one thread, long histories')
    # several threads: a register is empty before it is filled
    B = [['s.make', 0, 1, 'ch'], ['s.make', 0, 1, 'static'], ['s.make', 0, 2, 'str'], ['s.search', 0, 1, 'wide']]
    Q = [[a] for a in B] + [[a, ['s.drop', 0]] for a in B] + [[a, ['s.drop', 0], b] for a in B for b in B] + [[a, ['s.copy', 0, 1], ['s.drop', 0]] for a in B]
    s = [[E('C.run', ini, [p, q], ['all', c.n(2, 3), c.n(300, 600)])] for p in Q for q in Q]
    if not c.thorough: s = r.sample(s, 150)
    s += [[concgen.ev(r, 'name', 3, r.choice([2, 3]), ['all', 2, c.n(200, 500)])] for _ in range(c.n(20, 200))]
    s += [[concgen.ev(r, 'name', r.choice([2, 3, 4]), r.choice([3, 5]), ['random', r.randint(1, 9999), c.n(40, 100)])] for _ in range(c.n(60, 600))]
    c.conform(exe, 'LinSpec', s, name='controlled schedules', cpu=120)
    c.conform(concgen.build_free(), 'LinSpec', [[concgen.ev(r, 'name', r.choice([2, 3, 4]), r.choice([3, 6]), ['random', i, c.n(100, 800)])] for i in range(c.n(24, 120))], name='free running', cpu=120)
