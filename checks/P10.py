import vf, strgen
def run(c):
    for ch in ('{97, 46, 47, 49}', '{233, 92, 110, 34}', '{38, 59, 37, 50}'):
        c.model('StrTheory', 'INIT TInit\nNEXT TNext\nINVARIANTS Searching Splitting Editing Ordering Coding Paths Numbers\nCHECK_DEADLOCK FALSE\nCONSTANTS Chars = %s\nN = %d\n' % (ch, c.n(4, 6)), name='StrTheory ' + ch)
    exe = vf.build(['ops_str.cpp'], 'sfw'); r = c.rng
    c.conform(exe, 'StrSpec', strgen.explore(c, [97, 233], 2, c.n(4, 6), limit=c.n(4000, 60000)), name='histories, small scope')
    c.conform(exe, 'StrSpec', [strgen.rand(r, 40) for _ in range(c.n(300, 6000))], name='random histories')
    c.conform(exe, 'StrSpec', strgen.small(r, 'aA', 3, 2, c.n(30, 100) / 100, c.n(60, None)) + strgen.small(r, 'a.é', c.n(2, 3), 2, c.n(30, 100) / 100, c.n(60, None)) + strgen.small(r, '1. "', 2, 1, c.n(30, 100) / 100, c.n(60, None)), name='all short strings')
    c.conform(exe, 'StrSpec', strgen.rand_queries(r, c.n(150, 4000)), name='random strings')
    c.conform(exe, 'StrSpec', strgen.numbers(r, c.n(120, 3000)), name='numbers')
    c.conform(exe, 'StrSpec', strgen.paths(r, c.n(250, 5000)), name='paths, escapes, names')
    c.conform(exe, 'StrSpec', strgen.decoding(r, c.n(150, 4000)), name='encodings, roots')
    c.assumptions = ['case conversion is claimed for ASCII, Latin-1, Greek and Cyrillic letters', 'positions outside a string, empty search keys in findmk are not claimed']
