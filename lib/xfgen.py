# Scripts for matrices, quaternions, planes and transforms: pure calls on exact and random values.
from gen import E
from geogen import q4, unit, U2, U3, tw
import itertools, math

def v(r, n, z=True, lo=-3, hi=3):
    x = [q4(r, lo, hi) if r.random() < .7 else round(r.uniform(lo, hi), 3) for _ in range(n)]
    if not z: x = [c if c else r.choice([1, -1, 2, .5]) for c in x]
    return x
def nz(r, n):
    while 1:
        x = v(r, n)
        if math.sqrt(sum(c * c for c in x)) > .2: return x
def ang(r): return r.choice([0, math.pi / 2, -math.pi / 2, math.pi, .3, 2.5, -1.25]) if r.random() < .3 else round(r.uniform(-6, 6), 3)
def mul(a, b): return [[sum(a[i][k] * b[k][j] for k in range(len(b))) for j in range(len(b[0]))] for i in range(len(a))]
def tr(a): return [list(c) for c in zip(*a)]
def det(a): return a[0][0] * a[1][1] - a[0][1] * a[1][0] if len(a) == 2 else a[0][0] * (a[1][1] * a[2][2] - a[1][2] * a[2][1]) - a[0][1] * (a[1][0] * a[2][2] - a[1][2] * a[2][0]) + a[0][2] * (a[1][0] * a[2][1] - a[1][1] * a[2][0])
def quat(r, w=None):
    if r.random() < .3:
        q = [0, 0, 0, 0]; k = r.choice([.7071067811865476, 1, .5, .6])
        if k == 1: q[r.randrange(4)] = 1; return q
        if k == .5: return [r.choice([.5, -.5]) for _ in range(4)]
        i, j = r.sample(range(4), 2); q[i] = k * r.choice([1, -1]); q[j] = (.8 if k == .6 else k) * r.choice([1, -1]); return q
    q = [r.gauss(0, 1) for _ in range(4)]; l = math.sqrt(sum(c * c for c in q)); return [c / l for c in q]
def qmat(q):
    x, y, z, w = q
    return [[1 - 2 * (y * y + z * z), 2 * (x * y - z * w), 2 * (x * z + y * w)], [2 * (x * y + z * w), 1 - 2 * (x * x + z * z), 2 * (y * z - x * w)], [2 * (x * z - y * w), 2 * (y * z + x * w), 1 - 2 * (x * x + y * y)]]
def qmul(p, q):
    a, b, c, d = p; e, f, g, h = q
    return [d * e + a * h + b * g - c * f, d * f - a * g + b * h + c * e, d * g + a * f - b * e + c * h, d * h - a * e - b * f - c * g]
def qaxis(k, t): return [c * math.sin(t / 2) for c in k] + [math.cos(t / 2)]
def perms():
    o = []
    for p in itertools.permutations(range(3)):
        for s in itertools.product((1, -1), repeat=3):
            m = [[s[i] if p[i] == j else 0 for j in range(3)] for i in range(3)]
            if det(m) == 1: o.append(m)
    return o
PERMS = perms()
def rot(r): return r.choice(PERMS) if r.random() < .3 else qmat(quat(r))
def diag(d): return [[d[i] if i == j else 0 for j in range(len(d))] for i in range(len(d))]
def scl(r, n, neg=True): return [r.choice([.5, 1, 2, 3, 1.5]) * (r.choice([1, 1, -1]) if neg else 1) for _ in range(n)]
def rs(r): return mul(rot(r), diag(scl(r, 3)))                    # rotation times scale, perhaps a reflection
def full(r, n=3):                                                 # far from singular
    while 1:
        m = [v(r, n) for _ in range(n)]
        ls = [math.sqrt(sum(c * c for c in x)) for x in m + tr(m)]
        if min(ls) > .3 and abs(det(m)) > .25: return m
def mat(r): return full(r) if r.random() < .6 else rs(r)
def imat(r, n=3): return [[r.randint(-3, 3) for _ in range(n)] for _ in range(n)]
def near(r, m): return [[c + r.choice([0, 0, 0, 0, 1e-7, 1, -.5]) for c in x] for x in m]
EU = ('xyz', 'xzy', 'yzx', 'yxz', 'zxy', 'zyx', 'default')
def euler(r):
    e = v(r, 3)
    if r.random() < .3: e[r.randrange(3)] = r.choice([math.pi / 2, -math.pi / 2])
    return e
def basis(r):
    m = mat(r); k = full(r); p = lambda f, *a: E('X', 'b', f, *a); u = unit(r, 3); s = scl(r, 3)
    o = [p('mul', m, k), p('square', m), p('add', m, k), p('sub', m, k), p('smul', m, q4(r)), p('det', [v(r, 3) for _ in range(3)]), p('inverse', m), p('transpose', m), p('tmul', m, k),
         p('xform', m, v(r, 3)), p('tdot', m, v(r, 3)), p('xformi', imat(r), [r.randint(-5, 5) for _ in range(3)]), p('normal_xform', m, nz(r, 3)), p('from_axis', m, u, ang(r)), p('axis_angle', rot(r)),
         p('axis_angle', qmat(qaxis(u, r.choice([math.pi, 1e-3, .5, 3.1, 2])))), p('from_quat', m, quat(r)), p('quat', rot(r)), p('rotated', m, u, ang(r)), p('rotated_local', m, u, ang(r)), p('rotatede', m, euler(r)),
         p('rotatedq', m, quat(r)), p('rot_euler', rs(r)), p('rot_axis', rs(r)), p('rot_axis_local', rs(r)), p('rot_quat', mat(r)), p('align', m, u, r.choice([u, unit(r, 3), [-c for c in u]])), p('decomp', rs(r)),
         p('scaled', m, v(r, 3)), p('scaled_local', m, v(r, 3)), p('scaled_orth', r.choice([diag([1, 1, 1]), rs(r)]), scl(r, 3, False)), p('uniform', m), p('scale', m), p('set_axis_scale', m, u, ang(r), s),
         p('set_euler_scale', m, euler(r), s), p('set_quat_scale', m, quat(r), s), p('diag', m, v(r, 3)), p('approx', m, near(r, m)), p('approx', m, m), p('orth_index', r.choice(PERMS), r.randrange(24)),
         p('lerp', m, k, tw(r)), p('ortho', m), p('orthog', m), p('from_z', m, u), p('parts', m, r.randrange(3), v(r, 3))]
    o.append(p('kind', r.choice([rot(r), diag(scl(r, 3)), near(r, rot(r)), rs(r), diag([1, 1, 1]), diag([-1, 1, 1]), m])))
    sy = [v(r, 3) for _ in range(3)]; sy = [[sy[min(i, j)][max(i, j)] for j in range(3)] for i in range(3)]; o += [p('diagonalize', sy), p('kind', sy)]
    a, b = rot(r), rot(r); o.append(p('slerp', a, b, r.choice([0, 1, .5, .25, .3])))
    e = r.choice(EU); o += [p('euler', rot(r), e), p('from_euler', m, e, euler(r))]
    d, up = nz(r, 3), nz(r, 3)
    if math.dist([d[1] * up[2] - d[2] * up[1], d[2] * up[0] - d[0] * up[2], d[0] * up[1] - d[1] * up[0]], [0, 0, 0]) > .1: o.append(p('look', m, d, up, r.random() < .5))
    return o
def quats(r):
    q, s = quat(r), quat(r); p = lambda f, *a: E('X', 'q', f, *a); g = v(r, 4); u = unit(r, 3); w = r.choice([0, 1, .5, .25, .7])
    if r.random() < .2: s = r.choice([q, [-c for c in q], qmul(q, qaxis(u, .01))])
    o = [p('mul', g, v(r, 4)), p('mul', q, s), p('add', g, s), p('sub', g, s), p('neg', g), p('smul', g, q4(r)), p('sdiv', g, r.choice([2, -.5, 3])), p('vmul', q, v(r, 3)), p('dot', g, q), p('length', g), p('normal', v(r, 4, False)),
         p('is_normal', r.choice([q, g])), p('inverse', q), p('xform', q, v(r, 3)), p('from_axis', g, u, ang(r)), p('axis_angle', q), p('from_euler', g, euler(r)), p('euler', q), p('angle_to', q, s),
         p('slerp', q, s, w), p('slerpni', q, s, w), p('explog', q), p('approx', q, s), p('approx', q, [c + r.choice([0, 0, 1e-7, .5]) for c in q]), p('parts', g, r.randrange(4), q4(r))]
    x = unit(r, 3); y = r.choice([x, [-c for c in x], unit(r, 3)]); o.append(p('arc', q, x, y))
    c = [qmul(q, qaxis(unit(r, 3), r.uniform(-1.2, 1.2))) for _ in range(3)]; o += [p('cubic', q, *c, w), p('scubic', q, *c, r.choice([0, 1, .5]))]
    t = [round(r.uniform(-1, 1), 2) for _ in range(4)]; k = [qaxis(u, x) for x in t]; o.append(p('scubic', k[1], k[2], k[0], k[3], w, u, t))
    return o
def plane(r): return [unit(r, 3), q4(r)]
def planes(r):
    p = lambda f, *a: E('X', 'p', f, *a); x = plane(r); y = v(r, 3); h = sum(a * b for a, b in zip(x[0], y)) - x[1]
    on = [c - h * n for c, n in zip(y, x[0])]; off = lambda t: [c + t * n for c, n in zip(on, x[0])]
    s = [v(r, 3), r.choice([q4(r), 0])]; pt = r.choice([y, on, off(.25), off(-.75), off(.49), off(.51), off(-.51), off(2e-5), off(5e-6)])
    o = [p('normal', s), p('normal', [[0, 0, 0], 1]), p('dist', x, pt), p('project', x, y), p('center', x), p('set_normal', x, unit(r, 3)), p('meet3', x, plane(r), plane(r)), p('meet3', x, x, plane(r)),
         p('ray', x, y, v(r, 3)), p('ray', x, on, nz(r, 3)), p('segment', x, y, v(r, 3)), p('segment', x, off(-1), off(r.choice([1, -.5, 0, 2e-5, -2e-5, 3]))), p('segment', x, off(1), off(-2)),
         p('approx', x, r.choice([x, [[-c for c in x[0]], -x[1]], [[-c for c in x[0]], x[1]], [x[0], x[1] + 1e-7], [x[0], x[1] + 1], plane(r)]))]
    d = unit(r, 3); pl = [d[1] * x[0][2] - d[2] * x[0][1], d[2] * x[0][0] - d[0] * x[0][2], d[0] * x[0][1] - d[1] * x[0][0]]; o += [p('ray', x, y, pl), p('segment', x, y, [a + b for a, b in zip(y, pl)])]
    a, b = v(r, 3), nz(r, 3); c = nz(r, 3); cr = [b[1] * c[2] - b[2] * c[1], b[2] * c[0] - b[0] * c[2], b[0] * c[1] - b[1] * c[0]]
    if math.sqrt(sum(t * t for t in cr)) > .1: o.append(p('make', x, a, [i + j for i, j in zip(a, b)], [i + j for i, j in zip(a, c)]))
    return o
def r2(t): return [[math.cos(t), -math.sin(t)], [math.sin(t), math.cos(t)]]
def rs2(r): return mul(r2(ang(r)), diag(scl(r, 2)))
def m2(r): return full(r, 2) if r.random() < .6 else rs2(r)
def t2(m, o): return tr(m) + [o]
def flat(r):
    p = lambda f, *a: E('X', 't', f, *a); m = m2(r); t = t2(m, v(r, 2)); u = t2(m2(r), v(r, 2)); it = t2(imat(r, 2), [r.randint(-4, 4) for _ in range(2)]); i2 = lambda: [r.randint(-6, 6) for _ in range(2)]
    o = [p('mul', t, u), p('smul', t, q4(r)), p('det', t), p('inverse', t), p('ainverse', t), p('xform', t, v(r, 2)), p('xformi', it, i2()), p('xformr', t, [v(r, 2), [abs(c) for c in v(r, 2)]]),
         p('xforma', t, [v(r, 2) for _ in range(r.randrange(5))]), p('xformai', it, [i2() for _ in range(r.randrange(5))]), p('get', t), p('get', t2(rs2(r), v(r, 2))), p('set_rotation', t, ang(r)), p('set_scale', t, scl(r, 2)),
         p('set_skew', t, round(r.uniform(-1.4, 1.4), 3)), p('set_origin', t, v(r, 2)), p('set_rs', t, ang(r), scl(r, 2)), p('set_rss', t, ang(r), scl(r, 2), round(r.uniform(-1.4, 1.4), 3)),
         p('make', t, ang(r), scl(r, 2), round(r.uniform(-1.4, 1.4), 3), v(r, 2)), p('rotated', t, ang(r)), p('rotated_local', t, ang(r)), p('scaled', t, v(r, 2)), p('scaled_basis', t, v(r, 2)), p('scaled_local', t, v(r, 2)),
         p('translate', t, v(r, 2)), p('translate_local', t, v(r, 2)), p('untranslated', t), p('ortho', t), p('approx', t, near(r, t)), p('approx', t, t), p('parts', t, r.randrange(3), v(r, 2))]
    d = nz(r, 2); s = rs2(r); o.append(p('look', t2(s, t[2]), [a + b for a, b in zip(t[2], d)]))
    a = r.uniform(-3, 3); b = a + r.uniform(-3, 3); w = r.choice([0, 1, .5, .25, .7]); o.append(p('interp', t2(mul(r2(a), diag(scl(r, 2, False))), v(r, 2)), t2(mul(r2(b), diag(scl(r, 2, False))), v(r, 2)), w))
    return o
def solid(r):
    p = lambda f, *a: E('X', 'f', f, *a); A = lambda m: [m, v(r, 3)]; t = A(mat(r)); u = A(mat(r)); it = [imat(r), [r.randint(-4, 4) for _ in range(3)]]; i3 = lambda: [r.randint(-6, 6) for _ in range(3)]; k = unit(r, 3)
    o = [p('mul', t, u), p('smul', t, q4(r)), p('inverse', t), p('ainverse', t), p('inverse_xform', t, u), p('xform', t, v(r, 3)), p('xformi', it, i3()), p('xformb', t, [v(r, 3), [abs(c) for c in v(r, 3)]]), p('xformp', t, plane(r)),
         p('xforma', t, [v(r, 3) for _ in range(r.randrange(4))]), p('xformai', it, [i3() for _ in range(r.randrange(4))]), p('rotated', t, k, ang(r)), p('rotated_local', t, k, ang(r)), p('rotate_basis', t, k, ang(r)),
         p('scaled', t, v(r, 3)), p('scaled_local', t, v(r, 3)), p('scale_basis', t, v(r, 3)), p('translated', t, v(r, 3)), p('translated_local', t, v(r, 3)), p('ortho', t), p('orthog', t),
         p('approx', t, [near(r, t[0]), t[1]]), p('approx', t, t), p('make', t)]
    eye = v(r, 3); g = [t[1][0] + 1.5, t[1][1] + r.choice([.5, -1]), t[1][2] + 2]; up = r.choice([[0, 1, 0], [0, 0, 1], [1, 0, 0]])
    e = [a - b for a, b in zip(g, eye)]; cr = [up[1] * e[2] - up[2] * e[1], up[2] * e[0] - up[0] * e[2], up[0] * e[1] - up[1] * e[0]]
    if math.sqrt(sum(c * c for c in cr)) > .1: o.append(p('look', t, g, up, eye))
    o.append(p('interp', A(rs(r)), A(rs(r)), r.choice([0, 1, .5, .25, .7])))
    return o
def scripts(f, r, n):
    return [f(r) for _ in range(n)]
