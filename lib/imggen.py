# Scripts for images.
import vf
from gen import E
K = ['i1', 'i2', 'i3']
U = 79050
CH = [1, 2, 1, 2, 3, 4, 4, 4, 1, 2, 3, 4]
INT = list(range(8)); FL = [8, 9, 10, 11]; ALL = list(range(12))
def tie(n): return n % 310 == 155 or n % 5270 == 2635 or n % 2550 == 1275 or 2 * n == U or n in (620, 78740)
def lev(r, f, c):
    if f < 6: return r.choice([0, 0, 1, 2, 127, 128, 253, 254, 255, 255, r.randint(0, 255)])
    if f == 6: return r.choice([0, 15, r.randint(0, 15)])
    if f == 7: return r.randint(0, 1) if c == 3 else r.choice([0, 31, r.randint(0, 31)])
    return unit(r)
def unit(r):
    while True:
        n = r.choice([0, 0, U, U, 310 * r.randint(0, 255), r.randint(0, U), r.randint(0, U), r.choice([-500, 80000, 160000, 40])])
        if not tie(n): return n
def color(r):
    c = [unit(r) for _ in range(4)]
    if r.random() < .3: c[3] = r.choice([0, U, 310])
    return c
def npix(w, h, mm):
    n = w * h
    while mm and (w, h) != (1, 1): w = max(1, w // 2); h = max(1, h // 2); n += w * h
    return n
def px(r, f, n):
    if r.random() < .12:
        p = [lev(r, f, c) for c in range(CH[f])]; return p * n
    return [lev(r, f, c) for _ in range(n) for c in range(CH[f])]
def dim(r): return r.choice([1, 1, 2, 2, 3, 4, 5, 6, 7])
def make(r, k, fs=ALL, big=False):
    w, h = dim(r), dim(r); f = r.choice(fs); mm = r.random() < .3
    if f in FL: mm = mm and r.random() < .5
    x = [w, h, mm, f] + ([0] if r.random() < .3 else [])
    if r.random() < .06: x[r.choice([0, 1])] = r.choice([0, -1])
    if r.random() < .12: return E('I', 'new', k, x)
    d = px(r, f, npix(w, h, mm))
    if r.random() < .03: d = d[:-1] if r.random() < .5 and len(d) > 1 else d + [0] * (1 if f < 6 else CH[f])
    return E('I', 'data', k, x, d)
def rect(r, neg=True): return [r.choice([0, 0, 1, 2, 3] + ([-1, -3] if neg else [])), r.choice([0, 0, 1, 2] + ([-2] if neg else [])), r.choice([1, 2, 3, 4, 9, 0, 1]), r.choice([1, 2, 3, 4, 9, 0, 1])]
def spot(r): return [r.choice([0, 0, 1, 2, 3, -1, 7]), r.choice([0, 0, 1, 2, 3, 5, -2])]
def edit(r, k):
    m = r.choice(['set', 'set', 'set', 'fill', 'fillr', 'fillr', 'flipx', 'flipy', 'crop', 'resize', 'resize', 'po2', 'shrink', 'genmm', 'clrmm', 'conv', 'conv', 'premul', 'linear', 'toxy', 'bump', 'edges', 'opt', 'clear', 'lock', 'lock'])
    if m == 'set': return [E('I', m, k, spot(r), color(r), r.random() < .3)]
    if m == 'fill': return [E('I', m, k, color(r))]
    if m == 'fillr':
        q = rect(r)
        if r.random() < .2: q = [q[0] + 3, q[1] + 2, -q[2], -q[3]]
        return [E('I', m, k, q, color(r))]
    if m == 'crop': return [E('I', m, k, [r.choice([0, 0, 0, 1, 2, -1]), r.choice([0, 0, 0, 1, 3])] + [r.choice([1, 2, 3, 5, 8]) if r.random() < .96 else 0, r.choice([1, 2, 3, 5, 7])], r.random() < .5)]
    if m == 'resize': return [E('I', m, k, [r.choice([1, 2, 3, 4, 5, 7, 9]) if r.random() < .96 else 0, r.choice([1, 2, 3, 4, 6, 8]), r.choice([0, 0, 1, 1, 1, 2, 3, 4])])]
    if m == 'po2': return [E('I', m, k, [r.random() < .4, r.choice([0, 1])])]
    if m == 'conv': return [E('I', m, k, r.choice(ALL))]
    if m == 'bump': return [E('I', m, k, r.choice([1, 2, 8, 0]))]
    if m == 'lock': return [E('I', m, k)] + [x for _ in range(r.randint(0, 3)) for x in some(r, k)] + [E('I', 'unlock', k)]
    if m == 'clear' and r.random() < .6: return []
    return [E('I', m, k)]
def ask(r, k):
    m = r.choice(['get', 'get', 'info', 'used', 'alpha', 'invis', 'chan', 'sizes'])
    if m == 'get': return [E('I', m, k, spot(r))]
    if m == 'sizes': return [E('I', m, k, [r.choice([1, 2, 3, 5, 8, 13, 64]), r.choice([1, 2, 4, 7, 9, 100]), r.random() < .5, r.choice(ALL), r.choice([0, 1, 2, 3])])]
    return [E('I', m, k)]
def two(r, k):
    s, q = r.choice(K), r.choice(K); m = r.choice(['blit', 'blit', 'blitm', 'blend', 'blend', 'blendm', 'copyto', 'getrect', 'saveload'])
    if m == 'copyto': return [E('I', m, k, s)]
    if m == 'getrect': return [E('I', m, k, s, rect(r) if r.random() < .2 else [r.choice([0, 0, 1, 2, -1]), r.choice([0, 1, 2]), r.choice([1, 2, 3, 4]), r.choice([1, 2, 5])])]
    if m == 'saveload': return [E('I', m, k, r.choice(['png', 'bmp', 'tga']), s, r.choice([5, 5, 4, 0, 8, 6]))]
    return [E('I', m, k, s, q if m[-1] == 'm' else s, rect(r), [r.choice([0, 0, 1, 2, -1, -2, 5]), r.choice([0, 0, 1, 3, -1, -3])])]
def some(r, k): return edit(r, k) if r.random() < .5 else ask(r, k) if r.random() < .6 else two(r, k)
def hist(r, n, fs=ALL):
    if r.random() < .5: fs = [r.choice(fs)]
    ev = [make(r, k, fs) for k in K]
    while len(ev) < n:
        k = r.choice(K); x = r.random()
        ev += [make(r, k, fs)] if x < .06 else edit(r, k) if x < .5 else ask(r, k) if x < .72 else two(r, k)
    return ev
def over(r, n=14):
    """one format, much blitting and blending; masks as large as their source"""
    f = r.choice(INT[:6] + [0, 1, 5, 5, 4, 6, 7, 8, 11]); w, h = r.randint(1, 5), r.randint(1, 5); ev = []
    for k, f2 in zip(K, (f, f, r.choice([1, 5, f, f, 11, 6]))):
        a, b = (dim(r), dim(r)) if k == 'i1' else (w, h); mm = r.random() < .15; ev.append(E('I', 'data', k, [a, b, mm, f2], px(r, f2, npix(a, b, mm))))
    for _ in range(n):
        m = r.choice(['blit', 'blitm', 'blend', 'blendm', 'getrect'])
        ev.append(E('I', 'getrect', 'i2', 'i3' if r.random() < .1 else 'i1', [r.choice([0, 0, 1, -1]), r.choice([0, 1, -1, 2]), w, h]) if m == 'getrect' else E('I', m, 'i1', 'i2', 'i3', [r.choice([0, 0, 0, 1, 2, -1, -2]), r.choice([0, 0, 0, 1, -1, 3]), r.choice([1, 2, 3, 5, 9]), r.choice([1, 2, 3, 5, 9, 0])], [r.choice([0, 0, 1, 2, -1, -2, -4, 5]), r.choice([0, 0, 1, 3, -1, -3])]))
        if r.random() < .2: ev += edit(r, r.choice(['i1', 'i1', 'i2']))
    return ev
def tens(r, z0=0):
    x, y, z = (dim(r) % 5 or 1 for _ in range(3)); z = r.randint(1, 5)
    if r.random() < .05: x, y, z = 0, 0, 0
    return dict(x=x, y=y, z=z, d=[unit(r) for _ in range(x * y * z)])
def convert(r, n=12):
    """matrices and tensors"""
    ev = [make(r, k) for k in K]
    for _ in range(n):
        k = r.choice(K); m = r.choice(['frommat', 'tomat', 'zget', 'xget', 'yget', 'zsget', 'zinto', 'xinto', 'yinto', 'zsinto', 'zadd', 'zset', 'xset', 'yset', 'zsset', 'tfrom', 'make'])
        t = tens(r); i = r.choice([0, 0, 1, 1, 2, 3, -1, 5]); ch = r.choice([1, 2, 4, 8, 1, 3, 7, 15, 0, 6]); v = [r.choice([-1, 0, 1, 2, 0, 1] + ([9] if r.random() < .1 else [])) for _ in range(4)]
        if m == 'make': ev.append(make(r, k))
        elif m == 'frommat':
            w = dim(r); a = [[unit(r) for _ in range(w)] for _ in range(dim(r))] if r.random() < .95 else []
            b = r.random() < .5; ev.append(E('I', m, k, a, b))
            if a and r.random() < .5: ev.append(E('I', 'tomat', k, r.randint(0, 3), []))
        elif m == 'tomat': ev.append(E('I', m, k, r.choice([0, 1, 2, 3, 3, 4, -1]), [[unit(r)]] if r.random() < .5 else []))
        elif m in ('zget', 'xget', 'yget'): ev.append(E('I', m, k, t, i))
        elif m in ('zsget', 'zsinto'): ev.append(E('I', m, k, t, v))
        elif m in ('zinto', 'xinto', 'yinto'): ev.append(E('I', m, k, t, i, ch))
        elif m in ('zadd', 'tfrom'):
            if r.random() < .7: t = fit(r, t, ev, k, 'z') or t
            ev.append(E('I', m, k, t, ch))
        elif m == 'zsset': ev.append(E('I', m, k, (r.random() < .8 and fit(r, t, ev, k, 'z')) or t, v))
        else: ev.append(E('I', m, k, (r.random() < .8 and fit(r, t, ev, k, m[0])) or t, i, ch))
    return ev
def fit(r, t, ev, k, d):
    """a tensor whose side is as large as image k, which is made anew"""
    w, h, n = r.randint(1, 4), r.randint(1, 4), r.randint(1, 4); f = r.choice(ALL)
    x, y, z = dict(z=(w, h, n), x=(n, w, h), y=(w, n, h))[d]
    ev.append(E('I', 'data', k, [w, h, False, f], px(r, f, w * h)))
    return dict(x=x, y=y, z=z, d=[unit(r) for _ in range(x * y * z)])
def xpm(r):
    w, h, n = r.randint(1, 6), r.randint(1, 5), r.randint(1, 20); cpp = 1 if n <= 16 and r.random() < .7 else 2
    pal = [[r.choice([0, 255, 128, r.randint(0, 255)]) for _ in range(3)] for _ in range(n)]
    if r.random() < .4: pal[r.randrange(n)] = [255, 0, 255]
    return [E('I', 'xpm', 'i1', dict(w=w, h=h, cpp=cpp, up=r.random() < .5, pal=pal, px=[r.randrange(n) for _ in range(w * h)]), r.random() < .5), E('I', 'get', 'i1', [0, 0]), E('I', 'used', 'i1')]
def explore(c, mode, depth, limit):
    s = c.gen(vf.gen_module('ImgGen'), vf.GEN_CFG + 'CONSTANTS Mode = "%s"\n' % mode, props=dict(depth=depth), name='ImgGen ' + mode)
    return s if len(s) <= limit else c.rng.sample(s, limit)
