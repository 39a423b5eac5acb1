import vf, fsgen
def run(c):
    c.model('FsTheory', 'INIT TInit\nNEXT TNext\nINVARIANTS Csv Lines PlaceOk\nCHECK_DEADLOCK FALSE\nCONSTANTS Chars = {97, 34, 44, 10, 233}\nN = 2\nM = 2\n', name='FsTheory')
    exe = vf.build(['ops_fs.cpp'], 'sfw'); r = c.rng
    c.conform(exe, 'FsSpec', fsgen.explore(c, 'h', c.n(4, 6), c.n(6000, 80000)), name='two handles, small scope')
    c.conform(exe, 'FsSpec', fsgen.explore(c, 'b', c.n(4, 6), c.n(4000, 60000)), name='safe saving, small scope')
    c.conform(exe, 'FsSpec', [fsgen.trip(r) for _ in range(c.n(1000, 20000))], name='stored and read back')
    c.conform(exe, 'FsSpec', [fsgen.hand(r, 40) for _ in range(c.n(1200, 40000))], name='random histories')
    c.assumptions = ['a file open for writing is not opened a second time, and files are not moved or removed while open', 'carriage returns and NULs in texts are not claimed to survive reading as text; malformed UTF-8 reads as any text']
