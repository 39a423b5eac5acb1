# Scripts for projections and triangles.
from gen import E
from geogen import q4, unit
from xfgen import v, nz, mat, ang, plane, det, mul
import math
def pos(r, lo=.25, hi=4): return r.randint(int(lo * 4), int(hi * 4)) / 4
def m4(r):
    if r.random() < .3: return [[1 if i == j else 0 for j in range(4)] for i in range(4)]
    return [v(r, 4) for _ in range(4)]
def aff(r):
    while 1:
        m = mat(r)
        if abs(det(m)) > .3: return [m, v(r, 3)]
def frust(l, r_, b, t, n, f):  # columns
    return [[2 * n / (r_ - l), 0, 0, 0], [0, 2 * n / (t - b), 0, 0], [(r_ + l) / (r_ - l), (t + b) / (t - b), -(f + n) / (f - n), -1], [0, 0, -2 * f * n / (f - n), 0]]
def orth(l, r_, b, t, n, f):
    return [[2 / (r_ - l), 0, 0, 0], [0, 2 / (t - b), 0, 0], [0, 0, -2 / (f - n), 0], [-(r_ + l) / (r_ - l), -(t + b) / (t - b), -(f + n) / (f - n), 1]]
def proj(r):
    p = lambda f, *a: E('J', 'p', f, *a); c = m4(r); n = pos(r); f = n + pos(r, 1, 20); l = q4(r); w = pos(r); b = q4(r); h = pos(r); asp = r.choice([1, 1.5, .75, 2]); fov = r.choice([30, 45, 60, 75, 90, 100.5]); fl = r.random() < .5; o = []
    o += [p('identity', c), p('mul', c, m4(r)), p('det', c), p('xform4', c, v(r, 4)), p('xformp', c, plane(r)), p('flip', c), p('jitter', c, v(r, 2)), p('scale', c, v(r, 3)), p('bias', c), p('depth', c, fl), p('atlas', c, [v(r, 2), [pos(r), pos(r)]]), p('totr', c), p('fromtr', c, [mat(r), v(r, 3)])]
    d = [list(x) for x in c]; d[r.randrange(4)][r.randrange(4)] += r.choice([0, 0, .25]); o += [p('eq', c, d), p('eq', c, c)]
    o += [p('frustum', c, l, l + w, b, b + h, n, f), p('frustum2', c, pos(r), asp, v(r, 2), n, f, fl), p('ortho', c, l, l + w, b, b + h, q4(r), f + 5), p('ortho2', c, pos(r), asp, n, f, fl), p('persp', c, fov, asp, n, f, fl), p('eye', c, fov, asp, n, f, fl, r.randrange(3), .0625, pos(r, 1)), p('hmd', c, r.choice([1, 2]), asp, .0625, .125, r.choice([.0625, .125]), r.choice([1, 1.5]), n, f)]
    o += [p('frustum', c, *r.choice([(l, l, b, b + 1, n, f), (l + 1, l, b, b + 1, n, f), (l, l + 1, b, b, n, f), (l, l + 1, b, b + 1, f, n), (l, l + 1, b, b + 1, n, n)])), p('persp', c, fov, asp, n, n, fl), p('persp', c, 0, asp, n, f, False), p('fovy', c, fov, asp)]
    sym = frust(-w, w, -h, h, n, f); ort = orth(-w, w, -h, h, n, f); skew = frust(-w, w + pos(r), -h, h + abs(q4(r)), n, f); so = orth(l, l + w, b, b + h, n, f)
    o += [p('gets', sym, n, f, w, h, False), p('gets', ort, n, f, w, h, True), p('fov2', frust(-w, w + .5, -h, h, n, f), w, w + .5, n), p('znear', sym, n / 2, f), p('ppm', sym, r.randint(50, 2000)), p('fit', c, [v(r, 3), [pos(r), pos(r), pos(r)]])]
    T = aff(r); I = [[[1, 0, 0], [0, 1, 0], [0, 0, 1]], [0, 0, 0]]
    for x in (sym, skew, ort, so): o += [p('planes', x, r.choice([I, T])), p('plane', x, r.randrange(6)), p('ends', x, r.choice([I, T])), p('inverse', x), p('xform3', x, [q4(r), q4(r), -pos(r, 1, 9)]), p('det', x)]
    for _ in range(4):
        x = m4(r) if r.random() < .5 else [[(1 if (i + k) % 4 == j else 0) * pos(r) for j in range(4)] for k in [r.randrange(4)] for i in range(4)]
        if r.random() < .4:
            x = [[0] * 4 for _ in range(4)]; pr = r.sample(range(4), 4)
            for i in range(4): x[i][pr[i]] = r.choice([-1, 1]) * pos(r)
        dd = sum((-1) ** j * x[0][j] * det([[row[k] for k in range(4) if k != j] for row in x[1:]]) for j in range(4))
        if abs(dd) > .2: o.append(p('inverse', x))
    return o
def tri(r):
    while 1:
        t = [v(r, 3) for _ in range(3)]
        if r.random() < .3: k = r.randrange(3); z = q4(r); [x.__setitem__(k, z) for x in t]
        a = [x - y for x, y in zip(t[1], t[0])]; b = [x - y for x, y in zip(t[2], t[0])]; c = [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
        if sum(x * x for x in c) > .25: return t
def bar(t, w): return [sum(k * x[i] for k, x in zip(w, t)) for i in range(3)]
def cross(a, b): return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
def through(r, t):
    n = unit(r, 3); k = r.random()
    if k < .35: at = t[r.randrange(3)]
    elif k < .55: # holds a whole side
        i = r.randrange(3); d = [x - y for x, y in zip(t[i], t[i - 1])]; n = cross(d, unit(r, 3)); l = math.sqrt(sum(x * x for x in n))
        if l < .1: return plane(r)
        n = [x / l for x in n]; at = t[i]
    elif k < .9: w = [r.random() for _ in range(3)]; s = sum(w); at = bar(t, [x / s for x in w])
    else: return plane(r)
    return [n, sum(x * y for x, y in zip(n, at))]
def clear(t, p): # every point well off the plane or in it
    return all(abs(h) < 1e-9 or abs(h) > 1e-3 for h in (sum(x * y for x, y in zip(p[0], q)) - p[1] for q in t))
def face(r):
    f = lambda k, *a: E('J', 'f', k, *a); t = tri(r); o = [f('plane', t), f('area', t), f('median', t), f('degenerate', t), f('box', t), f('degenerate', [t[0], t[1], t[1]]), f('degenerate', [t[0], bar(t, [.5, .5, 0]), t[1]]), f('random', t, r.randint(1, 10 ** 6))]
    for _ in range(5): o.append(f('closest', t, [x + r.choice([0, 0, 1, 4]) * y for x, y in zip(bar(t, [r.choice([-2, -.5, 0, .25, .5, 1, 2]) for _ in range(3)]), v(r, 3))] if r.random() < .5 else v(r, 3, lo=-9, hi=9)))
    u = tri(r); s = [list(x) for x in t]; s[r.randrange(3)] = v(r, 3)
    for x in (u, s, t, [bar(t, [1, 2, -2]), bar(t, [0, 0, 1]), bar(t, [3, -1, -1])], [t[0], t[1], [a + b for a, b in zip(t[2], unit(r, 3))]]):
        n = cross([a - b for a, b in zip(t[0], t[2])], [a - b for a, b in zip(t[0], t[1])]); l = math.sqrt(sum(a * a for a in n)); n = [a / l for a in n]
        if clear(x, [n, sum(a * b for a, b in zip(n, t[0]))]): o.append(f('side', t, x, r.random() < .5))
    for _ in range(3):
        p = through(r, t)
        if clear(t, p) and not all(abs(sum(x * y for x, y in zip(p[0], q)) - p[1]) < 1e-9 for q in t): o.append(f('split', t, p))
    o.append(f('split', t, [unit(r, 3), r.choice([-40, 40])])); o.append(f('split', [t[0], t[1], t[0]], plane(r)))
    for _ in range(4):
        c = bar(t, [r.choice([-.5, 0, .3, .6, 1]) for _ in range(3)]) if r.random() < .7 else v(r, 3); z = [pos(r, .5, 3) for _ in range(3)]
        if r.random() < .6: c = [a + r.choice([-1, -.5, 0]) * b for a, b in zip(c, z)]
        o.append(f('hits', t, [c, z]))
    I = [[[1, 0, 0], [0, 1, 0], [0, 0, 1]], [0, 0, 0]]
    o.append(f('range', t, unit(r, 3), r.choice([I, aff(r)])))
    n = cross([a - b for a, b in zip(t[0], t[2])], [a - b for a, b in zip(t[0], t[1])]); l = math.sqrt(sum(a * a for a in n)); n = [a / l for a in n]
    for k in range(4):
        d = unit(r, 3)
        if k == 0: d = n
        if k >= 2: i = r.randrange(3); e = [a - b for a, b in zip(t[i], t[i - 1])]; d = cross(e, n) if r.random() < .5 else cross(e, unit(r, 3)); l = math.sqrt(sum(a * a for a in d)) or 1; d = [r.choice([-1, 1]) * a / l for a in d]
        o.append(f('support', t, d, r.choice([I, I, [I[0], v(r, 3)], aff(r)]), r.choice([3, 3, 2, 1, 0])))
    return o
