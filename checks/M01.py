import vf
from gen import G, E
def rand_script(g, n, big):
    r = g.r
    ev = []; rows = {}; cols = {}; vs = {}
    W = r.randint(1, big)
    for v in ('v1', 'v2'):
        k = r.choice([W, W, W + 1, 0, r.randint(1, big)]); ev.append(E('V.new', v, g.vec(k))); vs[v] = k
    for m in ('m1', 'm2', 'm3'):
        a = r.randint(0, big); b = r.choice([W, W, r.randint(1, big)])
        if a == 0: b = 0
        ev.append(E('M.new', m, g.mat(a, b))); rows[m] = a; cols[m] = b
    pool = g.vec(4)
    def ix(k): return r.choice([-1, 0, k - 1, k] + [r.randint(0, max(0, k - 1)) for _ in range(4)])
    for _ in range(n):
        m = r.choice(list(rows)); w = r.choice(list(rows)); v = r.choice(list(vs)); x = r.choice(pool)
        R, C = rows[m], cols[m]
        op = r.choice(['row_add'] * 4 + ['rows_add'] * 2 + ['row_remove', 'row_remove_unordered'] * 2 + ['row_swap'] * 2 + ['clear', 'reset', 'query', 'get', 'set', 'set', 'get_index', 'set_index', 'row_get', 'row_get_into',
                       'row_set', 'row_set', 'resize_rows', 'resize_fill', 'fill', 'flat', 'duplicate', 'copy_ctor', 'set_from_mat', 'set_from_matr', 'ctor', 'set_from', 'set_rows', 'set_data_bad', 'is_equal'])
        o = 'M.' + op
        if op == 'row_add':
            k = r.choice(['vector', 'pool', 'mlpp'])
            ln = r.choice([C if C else W, C if C else W, C + 1, 0])
            if k == 'mlpp': ln = vs[v]; ev.append(E(o, m, k, v))
            else: ev.append(E(o, m, k, g.vec(ln)))
            if ln:
                if C == 0: cols[m] = ln; rows[m] = 1
                elif C == ln: rows[m] += 1
        elif op == 'rows_add':
            if rows[m] + rows[w] > 60: continue
            ev.append(E(o, m, w))
            if rows[w] * cols[w]:
                if C == 0: rows[m], cols[m] = rows[w], cols[w]
                elif C == cols[w]: rows[m] += rows[w]
        elif op in ('row_remove', 'row_remove_unordered'):
            i = ix(R); ev.append(E(o, m, i))
            if 0 <= i < R: rows[m] -= 1
        elif op == 'row_swap': ev.append(E(o, m, ix(R), ix(R)))
        elif op in ('clear', 'reset', 'query'):
            if op != 'query' and r.random() < 0.6: continue
            ev.append(E(o, m))
            if op != 'query': rows[m] = cols[m] = 0
        elif op == 'get': ev.append(E(o, m, ix(R), ix(C)))
        elif op == 'set': ev.append(E(o, m, ix(R), ix(C), x))
        elif op == 'get_index': ev.append(E(o, m, ix(R * C)))
        elif op == 'set_index': ev.append(E(o, m, ix(R * C), x))
        elif op == 'row_get': ev.append(E(o, m, r.choice(['vector', 'pool', 'mlpp']), ix(R)))
        elif op == 'row_get_into':
            i = ix(R); ev.append(E(o, m, i, v))
            if 0 <= i < R: vs[v] = C
        elif op == 'row_set':
            k = r.choice(['vector', 'pool', 'std', 'mlpp'])
            ev.append(E(o, m, k, ix(R), v if k == 'mlpp' else g.vec(max(1, r.choice([C, C, C, C + 1])))))
        elif op == 'resize_rows':
            k = r.randint(0, big); ev.append(E(o, m, k, x)); rows[m] = k
            if C == 0: ev.pop(); rows[m] = R
        elif op == 'resize_fill': a = r.randint(1, big); b = r.randint(1, big); ev.append(E(o, m, a, b, x)); rows[m], cols[m] = a, b
        elif op == 'fill': ev.append(E(o, m, x))
        elif op == 'flat': ev.append(E(o, m, r.choice(['vector', 'pool', 'bytes', 'std', 'data', 'rows'])))
        elif op in ('duplicate', 'copy_ctor', 'set_from_mat', 'set_from_matr'): ev.append(E(o, m, w)); rows[m], cols[m] = rows[w], cols[w]
        elif op in ('ctor', 'set_from'):
            a = r.randint(1, big); b = r.randint(1, big)
            ks = ['vectors', 'arrays', 'stds', 'ptr'] + (['data'] if op == 'set_from' else [])
            ev.append(E(o, m, r.choice(ks), g.mat(a, b)['d'])); rows[m], cols[m] = a, b
        elif op == 'set_rows':
            if not vs[v]: continue
            a = r.randint(1, 4); same = [u for u in vs if vs[u] == vs[v]]
            ev.append(E('M.set_from', m, r.choice(['rows', 'rowarray']), [r.choice(same) for _ in range(a)])); rows[m], cols[m] = a, vs[v]
        elif op == 'set_data_bad': ev.append(E(o, m, r.randint(0, 1)))
        elif op == 'is_equal': ev.append(E(o, m, w, r.choice([0.25, 1.25, 0.001])))
    return ev
def run(c):
    exe = vf.build(['la.cpp', 'ops_vec.cpp', 'ops_mat.cpp'], 'core')
    cfg = vf.GEN_CFG + 'CONSTANTS Vals = {1, 2}\nMaxR = %d\nMaxC = 2\n' % c.n(2, 3)
    scripts = c.gen(vf.gen_module('MatGen'), cfg, props=dict(depth=c.n(5, 7)), name='MatGen exploration')
    lim = c.n(12000, 300000)
    vf.log('generated', len(scripts))
    if len(scripts) > lim:
        scripts = c.rng.sample(scripts, lim)
    c.conform(exe, 'LaSpec', scripts, name='exhaustive small scope')
    g = G(c.rng)
    c.conform(exe, 'LaSpec', [rand_script(g, 40, 5) for _ in range(c.n(600, 10000))], name='random histories')
    c.conform(exe, 'LaSpec', [rand_script(g, 20, 12) for _ in range(c.n(100, 1500))], name='random histories, larger matrices')
    c.assumptions = ['real_t is double in the harness build', 'resizing to another width is specified only together with fill']
