import vf, geogen
def run(c):
    for d, m, inv in ((2, 2, 'BoxesAreSets Hits Vectors Colours'), (3, 1, 'BoxesAreSets Vectors')) + (((2, 3, 'BoxesAreSets Hits Vectors Colours'), (3, 2, 'Vectors')) if c.tier == 'thorough' else ()):
        c.model('GeoTheory', 'INIT TInit\nNEXT TNext\nINVARIANTS %s\nCHECK_DEADLOCK FALSE\nCONSTANTS D = %d\n M = %d\n' % (inv, d, m), name='laws, %d dimensions, grid %d' % (d, m))
    exe = vf.build(['ops_geo.cpp'], 'sfw'); r = c.rng
    c.conform(exe, 'GeoSpec', geogen.grids(), name='boxes, small scope')
    c.conform(exe, 'GeoSpec', geogen.scripts(geogen.vectors, r, c.n(250, 6000)), name='vectors')
    c.conform(exe, 'GeoSpec', geogen.scripts(geogen.boxes, r, c.n(300, 8000)), name='rectangles and boxes')
    c.conform(exe, 'GeoSpec', geogen.scripts(geogen.colours, r, c.n(250, 6000)), name='colours')
    c.assumptions = []
