import vf, imggen
def run(c):
    c.model('ImgTheory', 'INIT TInit\nNEXT TNext\nINVARIANTS RoundTrip Wider Back Floats Covers\nCHECK_DEADLOCK FALSE\nCONSTANTS Ls = %s\n' % c.n('{0, 1, 2, 77, 128, 254}', '{0, 1, 2, 3, 17, 30, 77, 127, 128, 200, 253, 254}'), name='ImgTheory')
    exe = vf.build(['ops_img.cpp'], 'core', defs=['-DDEBUG_ENABLED']); r = c.rng
    c.conform(exe, 'ImgSpec', imggen.explore(c, 'e', c.n(4, 5), c.n(4000, 60000)), name='edits, small scope')
    c.conform(exe, 'ImgSpec', imggen.explore(c, 'b', c.n(5, 6), c.n(3000, 60000)), name='two images, small scope')
    c.conform(exe, 'ImgSpec', [imggen.hist(r, 25) for _ in range(c.n(500, 15000))], name='random histories')
    c.conform(exe, 'ImgSpec', [imggen.over(r) for _ in range(c.n(300, 10000))], name='blitting and blending')
    c.conform(exe, 'ImgSpec', [imggen.convert(r) for _ in range(c.n(300, 10000))], name='matrices and tensors')
    c.conform(exe, 'ImgSpec', [imggen.xpm(r) for _ in range(c.n(100, 2000))], name='pictures in text')
    c.assumptions = ['what the cubic and Lanczos filters give is only claimed for images of one colour; trilinear not for float formats', 'source and destination of blits differ; blending for 8-bit formats', 'only RGBA8 files are read back', 'a lock is not held over operations that lock themselves']
