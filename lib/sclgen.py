# Scripts for scalar maths, words, hashes and generators.
from gen import E
import struct, math
def le(v, n): return list((v % (1 << (8 * n))).to_bytes(n, 'little'))
def q(r, lo=-8, hi=8): return r.randint(lo * 8, hi * 8) / 8 if r.random() < .6 else struct.unpack('f', struct.pack('f', r.uniform(lo, hi)))[0]
def dy(r, lo=-8, hi=8): return r.randint(lo * 8, hi * 8) / 8
def pos(r, hi=8): return dy(r, 0, hi) + .125
def wt(r): return r.choice([0, 1, .5, .25, .75, -.5, 1.5, r.randint(0, 64) / 64])
def real(r):
    m = lambda f, *a: E('M', f, list(a)); o = []
    for f in ('sin', 'cos', 'atan', 'tanh', 'erf', 'abs', 'floor', 'ceil', 'round', 'sinc', 'sincn', 'deg2rad', 'rad2deg', 'fract'): o.append(m(f, q(r)))
    o += [m(f, 0) for f in ('sinc', 'abs')] + [m('round', dy(r) // 1 + .5), m('floor', -abs(dy(r)) // 1), m('abs', -3.5)]
    for f in ('sinh', 'cosh', 'exp', 'exp2'): o.append(m(f, q(r, -4, 4)))
    o += [m('tan', q(r, -1, 1)), m('asin', q(r, -2, 2)), m('acos', q(r, -2, 2)), m('asin', r.choice([-1, 1, 1.0625, -7])), m('acos', r.choice([-1, 1, 1.0625, -7])), m('atan2', q(r), r.choice([q(r), 1, -1])), m('sqrt', pos(r)), m('sqrt', 0), m('pow', pos(r), dy(r, -3, 3))]
    for f in ('log', 'log2', 'log10', 'log1p', 'linear2db'): o.append(m(f, r.choice([pos(r), 1, 10, 8, .001, 1234.5])))
    o += [m('db2linear', r.choice([0, 20, -20, 6, dy(r)])), m('fmod', dy(r), r.choice([1, -1]) * pos(r)), m('fposmod', dy(r), r.choice([1, -1]) * pos(r)), m('fposmod', r.choice([-1, 1, 0]) * 3, 1.5), m('fposmodp', dy(r), pos(r))]
    o += [m('lerp', q(r), q(r), wt(r)), m('inverse_lerp', 1, 1 + pos(r), q(r)), m('inverse_lerp', 1, 1 - pos(r), q(r)), m('range_lerp', q(r), 0, pos(r), q(r), q(r)), m('cubic', q(r), q(r), q(r), q(r), wt(r)), m('bezier', q(r), q(r), q(r), q(r), wt(r))]
    a = q(r); d = r.choice([-1, 1]) * r.uniform(.01, 3.0); o.append(m('lerp_angle', a, round(a + d + r.randint(-2, 2) * 2 * math.pi, 4), wt(r)))
    a = dy(r); b = a + r.choice([-1, 1]) * pos(r); o += [m('smoothstep', a, b, x) for x in (a, b, a + (b - a) * r.choice([.25, .5, .75]), dy(r))] + [m('move_toward', a, b, r.choice([.25, 1, abs(b - a), 20, 0, -1])), m('move_toward', b, a, pos(r))]
    lo = dy(r); hi = lo + pos(r); o += [m('wrapf', dy(r, -20, 20), lo, hi), m('wrapf', hi, lo, hi), m('wrapf', lo, lo, hi), m('wrapf', lo - .125, lo, hi), m('wrapf', dy(r), lo, lo), m('pingpong', dy(r, -20, 20), pos(r, 4)), m('pingpong', dy(r), -pos(r, 2)), m('pingpong', dy(r), 0)]
    o += [m('approx', x, x + e) for x, e in ((1, .5e-6), (1, 2e-4), (1000, 2e-3), (1000, .1), (0, 0), (q(r), .25), (-1000, .002))] + [m('approxt', q(r), q(r), pos(r)), m('zeroa', 0), m('zeroa', 5e-6), m('zeroa', -5e-5)]
    o += [m('ratio', x, y, .01, 1e-5) for x, y in ((1000, 1005), (1000, 1020), (0, 5e-6), (-3, -3), (q(r), q(r)), (-1, 1.002))]
    return o
def whole(r):
    m = lambda f, *a: E('M', f, list(a)); o = []; n = lambda k=20: r.randint(-k, k); big = lambda: r.choice([r.randrange(1 << r.randint(1, 31)), (1 << r.randint(0, 30)), (1 << r.randint(2, 30)) - 1, (1 << r.randint(2, 30)) + 1, r.randint(0, 20)])
    o += [m('ease', q(r, -1, 2), c) for c in (0, .5, 1, 2.5, -.5, -2, -3.5)] + [m('ease', x, r.choice([.25, 2, -2])) for x in (0, 1, .5)]
    o += [m('step_decimals', x) for x in (1, .5, .25, .1, .01, .001, .05, 10.125, 3, -.02, 1e-7, r.choice([2e-5, 3.5, 4e-9, 1e-12, 0]))] + [m('range_step_decimals', x) for x in (0, -1, 1e-14, .01, .5, 2)]
    o += [m('stepify', dy(r), r.choice([.25, .5, 1, 3, 2.5, 0, -.5])), m('stepify', n() * .5, 1), m('dectime', dy(r), pos(r, 2), r.choice([.25, .5, 1])), m('dectime', .25, 4, 1), m('dectime', -.25, 4, 1), m('snap_scalar', dy(r, -2, 2), r.choice([0, .5, 1, 2.5]), dy(r)), m('snap_scalar', .5, 0, dy(r)), m('snap_sep', dy(r, -2, 2), r.choice([0, .5, 1, 2]), dy(r), r.choice([0, .25, 1]))]
    o += [m('ftoi', n() + r.choice([0, .25, -.25])), m('wrapi', n(50), -3, n(9) + 8), m('wrapi', n(50), 5, r.choice([9, 2, 5, 6])), m('wrapi', 7, 0, 7), m('posmod', n(50), r.choice([1, 2, 7, -3, -7, 12])), m('posmod', n(), 0), m('posmod', -21, 7), m('absi', n(100)), m('absi', r.choice([-2147483647, 2147483647]))]
    o += [m('larger_prime', r.choice([big(), 0, 4, 5, 12, 13, 97, 1543, 805306457, 1610612740, 1610612741, 4294967295])) for _ in range(3)]
    for f in ('next2', 'prev2', 'close2', 'near2', 'nshift', 'shift2'): o += [m(f, max(big(), 1)), m(f, r.choice([1, 2, 3, 4, 5, 6, 7, 8, 96, 160]))]
    o += [m('next2', 0), m('prev2', 0), m('nshift', 0), m('shift2', 0), m('next2', 1 << 31), m('prev2', 4294967295), m('shift2', 1 << 31)]
    o += [m(f, list(struct.pack('<d', x))) for f in ('isnan', 'isinf') for x in (math.nan, math.inf, -math.inf, 0, q(r))]
    return o
def fbits(r):
    k = r.random()
    if k < .3: return list(struct.pack('<f', r.choice([0., -0., 1, -1, .5, 65504, 65536, 65520, -65536, 2 ** -14, 2 ** -15, 2 ** -24, -2 ** -14, 1 / 3, 6.1e-5, 6.0e-5, math.inf, -math.inf, math.nan, 1e30, 1e-30, 2049, 0.1])))
    if k < .8: return list(struct.pack('<f', r.choice([-1, 1]) * r.uniform(1, 2) * 2 ** r.randint(-17, 17)))
    return le(r.getrandbits(32), 4)
def dbits(r): return list(struct.pack('<d', r.choice([0., -0., math.inf, math.nan, -2.5, 1 / 3, 1e300, 1e-300, 5e-324, r.uniform(-9, 9)]))) if r.random() < .5 else le(r.getrandbits(64), 8)
def word(r, n): return r.choice([le(0, n), le(-1, n), le(1 << (8 * n - 1), n), le(r.getrandbits(8 * n), n), le(r.getrandbits(8 * n), n), le(r.getrandbits(7), n)])
def nonan(b, n):  # conversions may quieten a signalling NaN
    import struct as s
    x = s.unpack('<f' if n == 4 else '<d', bytes(b))[0]; return b if x == x else list(s.pack('<f' if n == 4 else '<d', math.nan))
def words(r):
    text = [r.choice([r.randrange(1, 128), r.randrange(1, 256)]) for _ in range(r.randrange(12))]; buf = [r.randrange(256) for _ in range(r.randrange(20))]; h = lambda f, *a: E('H', f, list(a)); o = []
    o += [E('enc', 'u2', word(r, 2)), E('enc', 'u4', word(r, 4)), E('enc', 'u8', word(r, 8)), E('enc', 'f', nonan(fbits(r), 4)), E('enc', 'd', nonan(dbits(r), 8)), E('enc', 's', text), E('enc', 's', [])]
    o += [E('half', fbits(r)) for _ in range(6)] + [E('float', le(r.choice([r.getrandbits(16), r.getrandbits(10), 0x7c00, 0xfc00, 0x8000, 0x3ff, 1, 0x400]), 2)) for _ in range(4)]
    o += [h('djb', text), h('djbbuf', buf, word(r, 4)), h('djb32', word(r, 4), word(r, 4)), h('djb64', word(r, 8), word(r, 8)), h('wang', word(r, 8)), h('mur32', word(r, 4), word(r, 4)), h('mur64', word(r, 8), word(r, 4)), h('murbuf', buf, word(r, 4)), h('murbuf', buf[:3], word(r, 4)), h('fmix', word(r, 4))]
    o += [h('murf', fbits(r)), h('murf', r.choice([[0, 0, 0, 128], [0, 0, 0, 0], [1, 0, 192, 127], [0, 0, 192, 255]])), h('murd', dbits(r)), h('murd', r.choice([[0] * 7 + [128], [0] * 8, [3] + [0] * 5 + [248, 255]])), h('djbf', dbits(r)), h('djbf', r.choice([[0] * 7 + [128], [0] * 8]))]
    return o
def rnd(r, n=12):
    o = [E('rnew', 0, word(r, 8), word(r, 8)), E('rseed', 1, word(r, 8))] if r.random() < .8 else []; keep = word(r, 8)
    for _ in range(n):
        g = r.randrange(2); k = r.choice(['rand', 'rand', 'bounded', 'randd', 'randf', 'mrand', 'randomd', 'randomf', 'randomi', 'randomi', 'randfn', 'seed', 'set', 'state', 'from'])
        b = r.choice([1, 2, 3, 6, 100, 1 << 31, (1 << 31) + 1, (1 << 32) - 1, 3 << 30, r.randrange(1, 1 << 32)]); lo = r.randint(-50, 50)
        if k == 'rand': o.append(E('rand', g))
        elif k == 'bounded': o.append(E('bounded', 0, le(b, 4)))
        elif k in ('randd', 'randf'): o.append(E(k, 0))
        elif k == 'mrand': o.append(E(r.choice(['mrandd', 'mrandf']), 1))
        elif k in ('randomd', 'randomf'): o.append(E(k, g, dy(r), dy(r)))
        elif k == 'randomi': o.append(E(k, g, lo, r.choice([lo, lo + 1, lo - 1, lo + r.randint(0, 20), -lo, r.randint(-1000000, 1000000)])))
        elif k == 'randfn': o.append(E('randfn', g, dy(r), pos(r, 2)))
        elif k == 'seed': o.append(E('rseed', g, r.choice([keep, word(r, 8)])))
        elif k == 'set': o.append(E('rset', 0, r.choice([keep, word(r, 8)])))
        elif k == 'state': o.append(E('state', 0))
        else: o.append(E('fromseed', word(r, 8)))
    return o + [E('state', 0), E('rand', 0), E('rand', 1)]
