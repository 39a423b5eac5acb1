import vf
from gen import G, E
def rand_script(g, n, big):
    r = g.r
    ev = []; sz = {}; ms = {}; vs = {}
    X, Y, Z = (r.randint(1, big) for _ in range(3))
    for v, k in (('v1', X * Y), ('v2', X), ('v3', r.randint(0, big))):
        ev.append(E('V.new', v, g.vec(k))); vs[v] = k
    for m, s in (('m1', (Y, X)), ('m2', (Z, Y)), ('m3', (Z, X))):
        ev.append(E('M.new', m, g.mat(s[0], s[1]))); ms[m] = s
    for t in ('t1', 't2'):
        s = (X, Y, r.randint(1, big)) if t == 't1' else r.choice([(X, Y, Z), (r.randint(1, big), r.randint(1, big), r.randint(1, big))])
        ev.append(E('T.new', t, g.ten(*s))); sz[t] = s
    def ix(k): return r.choice([-1, k] + [r.randint(0, max(0, k - 1)) for _ in range(6)])
    for _ in range(n):
        t = r.choice(list(sz)); w = r.choice(list(sz)); v = r.choice(list(vs)); m = r.choice(list(ms)); q = g.val()
        x, y, z = sz[t]
        op = r.choice(['z_add'] * 3 + ['z_remove', 'z_remove_unordered'] + ['z_swap'] * 2 + ['clear', 'reset', 'query', 'get', 'set', 'setref', 'get_index', 'set_index', 'getref', 'row_get', 'row_get_into', 'row_set', 'row_set',
                       'z_get', 'z_get_into', 'z_set', 'z_set', 'x_get', 'y_get', 'x_get_into', 'y_get_into', 'x_set', 'x_set', 'y_set', 'y_set', 'resize_fill', 'resize_z', 'shape', 'fill', 'flat', 'duplicate', 'set_from', 'ctor', 'is_equal'])
        o = 'T.' + op
        if op == 'z_add':
            k = r.choice(['vector', 'pool', 'mlpp', 'mat'])
            if k == 'mat': ev.append(E(o, t, k, m)); ok = ms[m] == (y, x) and x * y
            elif k == 'mlpp': ev.append(E(o, t, k, v)); ok = vs[v] == x * y and x * y
            else:
                ln = r.choice([x * y, x * y, x * y + 1]); ev.append(E(o, t, k, g.vec(ln))); ok = ln == x * y and ln
            if ok: sz[t] = (x, y, z + 1)
        elif op in ('z_remove', 'z_remove_unordered'):
            i = ix(z); ev.append(E(o, t, i))
            if 0 <= i < z: sz[t] = (x, y, z - 1)
        elif op == 'z_swap': ev.append(E(o, t, ix(z), ix(z)))
        elif op in ('clear', 'reset', 'query'):
            if op != 'query' and r.random() < 0.7: continue
            ev.append(E(o, t))
            if op != 'query': sz[t] = (0, 0, 0)
        elif op == 'get': ev.append(E(o, t, ix(z), ix(y), ix(x)))
        elif op == 'set': ev.append(E(o, t, ix(z), ix(y), ix(x), q))
        elif op in ('setref', 'getref'):
            if x * y * z == 0: continue
            ev.append(E(o, t, r.randrange(z), r.randrange(y), r.randrange(x), *([q] if op == 'setref' else [])))
        elif op == 'get_index': ev.append(E(o, t, ix(x * y * z)))
        elif op == 'set_index': ev.append(E(o, t, ix(x * y * z), q))
        elif op == 'row_get': ev.append(E(o, t, r.choice(['vector', 'pool', 'mlpp']), ix(z), ix(y)))
        elif op == 'row_get_into':
            i, j = ix(z), ix(y); ev.append(E(o, t, i, j, v))
            if 0 <= i < z and 0 <= j < y: vs[v] = x
        elif op == 'row_set':
            k = r.choice(['vector', 'pool', 'mlpp'])
            ev.append(E(o, t, k, ix(z), ix(y), v if k == 'mlpp' else g.vec(r.choice([x, x, x, x + 1]))))
        elif op == 'z_get': ev.append(E(o, t, r.choice(['vector', 'pool', 'mlpp', 'mat']), ix(z)))
        elif op == 'z_get_into':
            i = ix(z)
            if x * y == 0: continue
            if r.random() < 0.5:
                ev.append(E(o, t, 'mlpp', i, v))
                if 0 <= i < z: vs[v] = x * y
            else:
                ev.append(E(o, t, 'mat', i, m))
                if 0 <= i < z: ms[m] = (y, x)
        elif op == 'z_set':
            k = r.choice(['vector', 'pool', 'mlpp', 'mat', 'mat'])
            ev.append(E(o, t, k, ix(z), v if k == 'mlpp' else m if k == 'mat' else g.vec(r.choice([x * y, x * y, x * y + 1]))))
        elif op in ('x_get', 'y_get'): ev.append(E(o, t, ix(x if op[0] == 'x' else y)))
        elif op in ('x_get_into', 'y_get_into'):
            k = x if op[0] == 'x' else y
            if x * y * z == 0: continue
            i = ix(k); ev.append(E(o, t, i, m))
            if 0 <= i < k: ms[m] = (z, y) if op[0] == 'x' else (z, x)
        elif op in ('x_set', 'y_set'):
            if x * y * z == 0: continue
            if r.random() < 0.7:
                ev.append(E('M.new', m, g.mat(*((z, y) if op[0] == 'x' else (z, x))))); ms[m] = (z, y) if op[0] == 'x' else (z, x)
            ev.append(E(o, t, ix(x if op[0] == 'x' else y), m))
        elif op == 'resize_fill':
            s = tuple(r.randint(1, big) for _ in range(3)); ev.append(E(o, t, *s, q)); sz[t] = s
        elif op == 'resize_z':
            if x * y == 0: continue
            k = r.randint(1, big); ev.append(E(o, t, k, q)); sz[t] = (x, y, k)
        elif op == 'shape':
            if x * y * z == 0: continue
            s = r.choice([(y, z, x), (z, x, y), (x * y, 1, z), (1, x * z, y), (x + 1, y, z)]); ev.append(E(o, t, *s))
            if s[0] * s[1] * s[2] == x * y * z: sz[t] = s
        elif op == 'fill': ev.append(E(o, t, q))
        elif op == 'flat': ev.append(E(o, t, r.choice(['vector', 'pool', 'bytes', 'std', 'data', 'std3'])))
        elif op == 'duplicate': ev.append(E(o, t, w)); sz[t] = sz[w]
        elif op in ('set_from', 'ctor'):
            k = r.choice(['stds', 'mat', 'mats'] + (['matr', 'tensor', 'tensorr', 'data', 'matarray', 'vecs', 'vecarray', 'data_bad', 'null'] if op == 'set_from' else []))
            if k in ('stds', 'data'):
                s = tuple(r.randint(1, big) for _ in range(3)); ev.append(E(o, t, k, g.ten(*s)['d'])); sz[t] = s
            elif k in ('mat', 'matr'):
                if not ms[m][0] * ms[m][1]: continue
                ev.append(E(o, t, k, m)); sz[t] = (ms[m][1], ms[m][0], 1)
            elif k in ('mats', 'matarray'):
                if not ms[m][0] * ms[m][1]: continue
                ss = [u for u in ms if ms[u] == ms[m]]; n_ = r.randint(1, 3)
                ev.append(E(o, t, k, [r.choice(ss) for _ in range(n_)])); sz[t] = (ms[m][1], ms[m][0], n_)
            elif k in ('vecs', 'vecarray'):
                if not vs[v]: continue
                ss = [u for u in vs if vs[u] == vs[v]]; n_ = r.randint(1, 3)
                ev.append(E(o, t, k, [r.choice(ss) for _ in range(n_)])); sz[t] = (vs[v], n_, 1)
            elif k in ('tensor', 'tensorr'): ev.append(E(o, t, k, w)); sz[t] = sz[w]
            elif k == 'null': ev.append(E(o, t, r.choice(['tensor', 'mat']), 'null'))
            else: ev.append(E(o, t, 'data_bad', r.randint(0, 1)))
        elif op == 'is_equal': ev.append(E(o, t, w, r.choice([0.25, 1.25, 0.001])))
        if sz[t][2] > 12: break
    return ev
def run(c):
    exe = vf.build(['la.cpp', 'ops_vec.cpp', 'ops_mat.cpp', 'ops_ten.cpp'], 'core')
    scripts = c.gen(vf.gen_module('TenGen'), vf.GEN_CFG + 'CONSTANTS Max = 2\n', props=dict(depth=c.n(4, 6)), name='TenGen exploration')
    lim = c.n(12000, 300000)
    vf.log('generated', len(scripts))
    if len(scripts) > lim:
        scripts = c.rng.sample(scripts, lim)
    c.conform(exe, 'LaSpec', scripts, name='exhaustive small scope')
    g = G(c.rng)
    c.conform(exe, 'LaSpec', [rand_script(g, 40, 4) for _ in range(c.n(700, 10000))], name='random histories')
    c.conform(exe, 'LaSpec', [rand_script(g, 20, 7) for _ in range(c.n(100, 1500))], name='random histories, larger tensors')
    c.assumptions = ['real_t is double in the harness build', 'resizing is specified in the z direction, or together with fill', 'image conversions are covered by P12']
