# Scripts for vectors, boxes, colours: pure calls on small grids and on random values.
from gen import E
import itertools, math

def q4(r, lo=-4, hi=4): return r.randint(lo * 4, hi * 4) / 4
def real(r): return q4(r) if r.random() < .7 else round(r.uniform(-8, 8), 3)
def num(r, t): return r.randint(-6, 6) if t.endswith('i') else (q4(r) if r.random() < .75 else round(r.uniform(-8, 8), 3))
def vec(r, t, z=True):
    n = int(t[1]); v = [num(r, t) for _ in range(n)]
    if r.random() < .25: v = [r.choice([v[0], v[i], -v[0]]) for i in range(n)]
    if r.random() < .05: v = [0] * n
    if not z: v = [x if x else r.choice([1, -1, 2, 3]) for x in v]
    return v
def nonzero(r, t):
    while 1:
        v = vec(r, t)
        if any(v): return v
U2 = [[1, 0], [0, 1], [-1, 0], [0, -1], [.6, .8], [-.8, .6], [.28, -.96]]
U3 = [[1, 0, 0], [0, 1, 0], [0, 0, 1], [-1, 0, 0], [0, 0, -1], [.6, .8, 0], [0, -.6, .8], [2 / 3, -1 / 3, 2 / 3], [2 / 7, 3 / 7, -6 / 7]]
def unit(r, n):
    if r.random() < .6: return list(r.choice(U2 if n == 2 else U3))
    v = [r.gauss(0, 1) for _ in range(n)]; l = math.sqrt(sum(x * x for x in v)); return [x / l for x in v]
def snapstep(r, n): return [r.choice([0, .25, .5, 1, 2]) for _ in range(n)]
def tw(r): return r.choice([0, 1, .5, .25, .75, round(r.uniform(-.5, 1.5), 3)])
def vectors(r):
    o = []
    for t in ('v2', 'v3', 'v4', 'v2i', 'v3i', 'v4i'):
        n = int(t[1]); I = t.endswith('i'); V = lambda z=True: vec(r, t, z)
        near = lambda v: [x if r.random() < .5 else (x + r.choice([-1, 0, 1])) for x in v]
        nz = r.choice([1, -1, 2, 3, -2]) if I else (r.choice([.5, -.25, 2, -3, 1.5]))
        a = V(); b = near(a) if r.random() < .5 else V()
        o += [E('G', t, 'add', a, b), E('G', t, 'sub', a, b), E('G', t, 'mul', a, b), E('G', t, 'div', a, V(False)), E('G', t, 'scale', a, num(r, t)), E('G', t, 'unscale', a, nz),
              E('G', t, 'neg', a), E('G', t, 'cmp', a, b), E('G', t, 'cmp', a, list(a)), E('G', t, 'min_axis', a), E('G', t, 'max_axis', a), E('G', t, 'length', a), E('G', t, 'abs', a),
              E('G', t, 'sign', a), E('G', t, 'set', a, r.randrange(n), num(r, t)), E('G', t, 'set_all', a, num(r, t)), E('G', t, 'lerp', a, b, tw(r))]
        if not (I and n == 2): o.append(E('G', t, 'le', a, b)); o.append(E('G', t, 'le', a, list(a)))
        if n > 2: o += [E('G', t, 'set_axis', a, r.randrange(n), num(r, t)), E('G', t, 'zero', a), E('G', t, 'imul', a, V(False))]
        if t not in ('v2',):
            lo = V(); hi = [x + abs(num(r, t)) for x in lo]; o.append(E('G', t, 'clamp', a, lo, hi))
        if I and n > 2: o += [E('G', t, 'mod', a, V(False)), E('G', t, 'mods', a, nz)]
        if I: o.append(E('G', t, 'tov', a))
        if I and n == 2: o += [E('G', t, 'minmax', a, b), E('G', t, 'aspect', V(False))]
        if not I:
            d = nonzero(r, t); u = unit(r, n) if n < 4 else [.5, -.5, .5, .5]
            o += [E('G', t, 'lscale', a, num(r, t)), E('G', t, 'normal', a), E('G', t, 'is_normal', u if r.random() < .5 else a), E('G', t, 'limit', a, abs(num(r, t))), E('G', t, 'dist', a, b),
                  E('G', t, 'dir', a, b), E('G', t, 'dot', a, b), E('G', t, 'posmod', [q4(r) for _ in a], r.choice([.5, 1, 2, 4, -1, -2])), E('G', t, 'posmodv', [q4(r) for _ in a], [r.choice([.5, 1, 2, 4, -1, -2]) for _ in a]),
                  E('G', t, 'cubic', a, b, V(), V(), tw(r)), E('G', t, 'floor', a), E('G', t, 'ceil', a), E('G', t, 'round', a), E('G', t, 'snap', a, snapstep(r, n)),
                  E('G', t, 'approx', a, [x + r.choice([0, 0, 1e-7, -1e-7, 1e-3, 1]) for x in a]), E('G', t, 'approx', [r.choice([0, 0, 0, 1e-7, -1e-7, 1e-3]) for _ in a], V())]
            if n < 4:
                s = unit(r, n); w = unit(r, n)
                o += [E('G', t, 'bezier', a, b, V(), V(), tw(r)), E('G', t, 'toward', a, b, abs(num(r, t))), E('G', t, 'toward', a, list(a), 1), E('G', t, 'project', a, d), E('G', t, 'slide', a, u), E('G', t, 'bounce', a, u),
                      E('G', t, 'reflect', a, u), E('G', t, 'angle_to', nonzero(r, t), d)]
                x, y = (s, w) if n == 2 else (vec(r, t), vec(r, t))
                if sum(p * q for p, q in zip(x, y)) > -.99 * math.sqrt(sum(p * p for p in x) * sum(p * p for p in y)) or n == 3 and not any(x): o.append(E('G', t, 'slerp', x, y, r.choice([0, 1, .5, .25, .8])))
            if n > 2: o += [E('G', t, 'inverse', V(False)), E('G', t, 'snapi', a, snapstep(r, n))]
            if n == 2: o += [E('G', t, 'imul', a, V(False)), E('G', t, 'cross', a, b), E('G', t, 'minmax', a, b), E('G', t, 'angle', d), E('G', t, 'angle_pt', a, [a[0] + d[0], a[1] + d[1]]), E('G', t, 'rotated', a, round(r.uniform(-7, 7), 3)),
                             E('G', t, 'set_rot', a, round(r.uniform(-7, 7), 3)), E('G', t, 'tangent', a), E('G', t, 'aspect', V(False)), E('G', t, 'plane_project', u, num(r, t), a), E('G', t, 'lerp2', a, b, tw(r)), E('G', t, 'toi', a)]
            if n == 3: o += [E('G', t, 'cross', a, b), E('G', t, 'vdot', a, b), E('G', t, 'rotated', a, u, round(r.uniform(-7, 7), 3)), E('G', t, 'outer', a, b), E('G', t, 'approx_tol', a, [x + r.choice([0, .01, -.2, .5]) for x in a], .1)]
            if n == 3:
                c = [r.choice([1, 2, -1, 3]), r.choice([1, -2, 3]), r.choice([1, 2, -1])]; o.append(E('G', t, 'signed_angle', nonzero(r, t), d, c))
    return o
def box(r, t, neg=False):
    n = 3 if t == 'bb' else 2; vt = 'v%d%s' % (n, 'i' if t == 'r2i' else '')
    g = (lambda lo, hi: r.randint(lo, hi)) if t == 'r2i' else (lambda lo, hi: r.randint(lo * 4, hi * 4) / 4)
    return [[g(-3, 3) for _ in range(n)], [g(-3, 4) if neg else g(0, 4) for _ in range(n)]]
def near_box(r, t, b):
    c = box(r, t)
    for i in range(len(b[0])):
        k = r.random()
        if k < .2: c[0][i] = b[0][i] + b[1][i]
        elif k < .4: c[0][i] = b[0][i] - c[1][i]
        elif k < .55: c[0][i] = b[0][i]
        elif k < .7: c[1][i] = max(0, b[0][i] + b[1][i] - c[0][i])
        elif k < .8: c[0][i] = b[0][i]; c[1][i] = b[1][i]
    return c
def point(r, t, b):
    k = lambda i: r.choice([b[0][i], b[0][i] + b[1][i], b[0][i] - 1, b[0][i] + b[1][i] + 1, b[0][i] + (b[1][i] // 2 if t == 'r2i' else b[1][i] / 2), r.randint(-4, 4)])
    return [k(i) for i in range(len(b[0]))]
def plane(r): return [list(r.choice(U3[:7])), q4(r)]
def boxes(r):
    o = []
    for t in ('r2', 'r2i', 'bb'):
        n = 3 if t == 'bb' else 2; b = box(r, t); c = near_box(r, t, b); p = point(r, t, b)
        amt = lambda: r.randint(-2, 3) if t == 'r2i' else q4(r, -2, 3)
        o += [E('G', t, f, b, c) for f in ('intersects', 'encloses', 'intersection', 'merge', 'beq')] + [E('G', t, 'encloses', b, b), E('G', t, 'beq', b, [list(b[0]), list(b[1])])]
        o += [E('G', t, 'has_point', b, p), E('G', t, 'grow', b, amt()), E('G', t, 'expand', b, p), E('G', t, 'babs', box(r, t, True)), E('G', t, 'end', b, p), E('G', t, 'acc', b, p, c[1]), E('G', t, 'center', b)]
        if n == 2:
            o += [E('G', t, 'clip', b, c), E('G', t, 'area', box(r, t, True)), E('G', t, 'grow_ind', b, amt(), amt(), amt(), amt()), E('G', t, 'grow_side', b, r.randrange(4), amt())]
        if t == 'r2i': o.append(E('G', t, 'to2', b)); continue
        vt = 'v%d' % n
        q = point(r, t, b); s = point(r, t, b) if r.random() < .6 else vec(r, vt)
        o += [E('G', t, 'touches', b, c), E('G', t, 'bapprox', b, [[x + r.choice([0, 0, 0, 1e-7, 1]) for x in b[0]], [x + r.choice([0, 0, 0, 1e-7, 1e-3]) for x in b[1]]]), E('G', t, 'support', b, vec(r, vt)),
              E('G', t, 'segment', b, q, s), E('G', t, 'segment', b, q, [x + d for x, d in zip(q, vec(r, vt))]), E('G', t, 'segment', b, vec(r, vt), vec(r, vt))]
        if n == 2:
            k = r.choice([[[1, 0], [0, 1]], [[0, 1], [-1, 0]], [[.6, .8], [-.8, .6]], [[.5, .5], [-.5, .5]], [[-1, 0], [0, 1]]]); m = r.choice([1, 1, .5, 2])
            o.append(E('G', t, 'xform', b, [[x * m for x in k[0]], [x * m for x in k[1]], vec(r, 'v2')], c))
        else:
            d = nonzero(r, 'v3')
            o += [E('G', t, 'volume', box(r, t, True)), E('G', t, 'merge_with', b, c), E('G', t, 'plane', b, plane(r)), E('G', t, 'plane', b, [r.choice(U3[:5]), r.choice(p)]), E('G', t, 'range', b, plane(r)), E('G', t, 'longest', b), E('G', t, 'corners', b),
                  E('G', t, 'edges', [b[0], [x + 1 for x in b[1]]]), E('G', t, 'points', [vec(r, 'v3') for _ in range(r.randint(0, 5))]), E('G', t, 'quantized', b, r.choice([.5, 1, 2])), E('G', t, 'inside', b, [plane(r) for _ in range(r.randint(0, 4))]),
                  E('G', t, 'convex', b, [plane(r) for _ in range(r.randint(0, 3))], [vec(r, 'v3') for _ in range(r.randint(1, 4))]), E('G', t, 'ray', b, vec(r, 'v3'), d), E('G', t, 'ray', b, q, r.choice(U3)), E('G', t, 'ray', b, q, [x - y for x, y in zip(s, q)]),
                  E('G', t, 'smits', [b[0], [x + .25 for x in b[1]]], [round(r.uniform(-6, 6), 3) for _ in range(3)], [round(r.uniform(.1, 3), 3) * r.choice([1, -1]) for _ in range(3)], 0, r.choice([1, 4, 100]))]
    return o
def col(r, hi=1.0):
    k = r.random()
    v = [r.randint(0, 16) / 16 * hi for _ in range(4)] if k < .5 else [r.randint(0, 255) / 255 for _ in range(4)] if k < .8 else [round(r.random(), 4) for _ in range(4)]
    if r.random() < .3: v[r.randrange(3)] = v[r.randrange(3)]
    if r.random() < .1: v = [v[0]] * 3 + [v[3]]
    if r.random() < .1: v[r.randrange(4)] = r.choice([0, 1])
    return v
def colours(r):
    c, d = col(r), col(r); k = r.randrange(4); w = tw(r); h = '0123456789abcdefABCDEF'
    wide = [x * 3.7 - 1.33 for x in col(r)]
    o = [E('G', 'col', f, wide, d) for f in ('add', 'sub', 'mul')] + [E('G', 'col', 'div', c, [x + .25 for x in d]), E('G', 'col', 'scale', c, num(r, 'v2')), E('G', 'col', 'unscale', c, r.choice([.5, 2, -4, 3])), E('G', 'col', 'neg', c), E('G', 'col', 'inverted', c)]
    o += [E('G', 'col', 'contrasted', [r.randint(0, 16) / 16 for _ in range(4)]), E('G', 'col', 'clamp', wide, [x / 4 for x in d], [.5 + x / 2 for x in d]), E('G', 'col', 'clamp01', wide), E('G', 'col', 'lerp', c, d, w), E('G', 'col', 'shade', c, abs(w)), E('G', 'col', 'blend', c, d),
          E('G', 'col', 'blend', c[:3] + [r.choice([0, 1])], d[:3] + [r.choice([0, 0, 1])]), E('G', 'col', 'lum', c), E('G', 'col', 'hsv', c), E('G', 'col', 'from_hsv', r.choice([r.randint(0, 23) / 24, round(r.random(), 3)]), r.choice([0, 1, round(r.random(), 3)]), round(r.random(), 3), d[3]),
          E('G', 'col', 'set_hsv1', c, round(r.random(), 3)), E('G', 'col', 'pack', c), E('G', 'col', 'hex', [r.randint(0, 255) for _ in range(4)]), E('G', 'col', 'hex64', [r.randint(0, 65535) for _ in range(4)]),
          E('G', 'col', 'to_html', c), E('G', 'col', 'to_html', wide), E('G', 'col', 'get8', c), E('G', 'col', 'get8', wide), E('G', 'col', 'set8', [r.randint(-20, 280) for _ in range(4)]), E('G', 'col', 'color8', [r.randint(0, 255) for _ in range(4)]),
          E('G', 'col', 'rgbe', [x * r.choice([1, 1, 8, 100, .01]) for x in c]), E('G', 'col', 'linear', c), E('G', 'col', 'srgb', c), E('G', 'col', 'cmp', c, [x + r.choice([0, 0, 0, 1 / 64, -1 / 64]) for x in c]), E('G', 'col', 'cmp', c, list(c)), E('G', 'col', 'alpha', c, d[0]), E('G', 'col', 'at', c, k, d[0])]
    for _ in range(3):
        s = ''.join(r.choice(h if r.random() < .97 else 'gz#-G/:@`') for _ in range(r.choice([3, 4, 6, 8, 6, 8, 0, 1, 2, 5, 7, 9])))
        o.append(E('G', 'col', 'html', [ord(x) for x in (r.choice(['', '#']) + s)]))
    return o
def scripts(f, r, n): return [f(r) for _ in range(n)]
def grids():  # every pair of small boxes on a line, in two and three dimensions
    o = []
    for p, s, q, u in itertools.product(range(0, 1), range(0, 3), range(-3, 4), range(0, 3)):
        b, c = [[p, 0], [s, 2]], [[q, 0], [u, 2]]
        for t in ('r2', 'r2i'): o += [E('G', t, f, x, y) for f in ('intersects', 'encloses', 'intersection', 'clip', 'merge') for x, y in ((b, c), ([b[0][::-1], b[1][::-1]], [c[0][::-1], c[1][::-1]]))]
        for i in range(3):
            z = lambda b: [[b[0][(k - i) % 2] if (k - i) % 3 < 2 else 1 for k in range(3)], [b[1][(k - i) % 2] if (k - i) % 3 < 2 else 1 for k in range(3)]]
            o += [E('G', 'bb', f, z(b), z(c)) for f in ('intersects', 'touches', 'encloses', 'intersection', 'merge')]
    return [o[k:k + 60] for k in range(0, len(o), 60)]
