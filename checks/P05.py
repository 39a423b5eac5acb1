import vf, refgen
def run(c):
    exe = vf.build(['ops_ref.cpp'], 'sfw'); r = c.rng
    for kinds, classes in ((['base', 'der', 'var'], ['Base', 'Der']), (['ref', 'var', 'vec'], ['Base', 'Oth']), (['var', 'ptr', 'arr'], ['Der', 'Plain'])):
        c.conform(exe, 'RefSpec', refgen.explore(c, kinds, classes, 2 if c.tier == 'quick' else 3, 8 if c.tier == "quick" else 9, limit=c.n(4000, 60000)), name='small scope: ' + '+'.join(kinds))
    c.conform(exe, 'RefSpec', [refgen.rand(r, 60) for _ in range(c.n(700, 15000))], name='random histories')
    c.conform(exe, 'RefSpec', [refgen.rand(r, 40, True) for _ in range(c.n(60, 1500))], name='histories with threads')
