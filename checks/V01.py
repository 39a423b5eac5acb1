import vf
from gen import G, E
def rand_script(g, n, big):
    r = g.r
    sz = {}
    ev = []
    for v in ('v1', 'v2', 'v3'):
        k = g.size(0, 8, big)
        ev.append(E('V.new', v, g.vec(k))); sz[v] = k
    pool = g.vec(4)
    for _ in range(n):
        v = r.choice(list(sz)); w = r.choice(list(sz)); s = sz[v]; x = r.choice(pool)
        i = r.choice([-1, 0, s - 1, s, s + 1, r.randint(0, s + 1), r.randint(0, s + 1), r.randint(0, s + 1)])
        op = r.choice(['push_back', 'push_back', 'append', 'remove', 'remove_unordered', 'erase', 'erase_multi', 'invert', 'clear', 'reset', 'resize', 'fill',
                       'insert', 'insert', 'find', 'sort', 'sort', 'ordered_insert', 'get', 'set', 'set', 'set', 'query', 'to_vector', 'to_pool', 'get_data', 'to_bytes', 'to_std',
                       'duplicate', 'copy_ctor', 'ctor', 'set_from', 'set_from_vec', 'set_from_vecr', 'is_equal', 'flatten', 'flattenn'])
        o = 'V.' + op
        if op in ('push_back', 'ordered_insert'): ev.append(E(o, v, x)); sz[v] += 1
        elif op == 'append':
            if s + sz[w] > 300: continue
            ev.append(E(o, v, w)); sz[v] += sz[w]
        elif op in ('remove', 'remove_unordered', 'get'): ev.append(E(o, v, i))
        elif op in ('erase', 'erase_multi', 'fill'): ev.append(E(o, v, x))
        elif op in ('invert', 'clear', 'reset', 'sort', 'query', 'to_vector', 'to_pool', 'get_data', 'to_bytes', 'to_std'):
            if op in ('clear', 'reset') and r.random() < 0.6: continue
            ev.append(E(o, v))
            if op in ('clear', 'reset'): sz[v] = 0
        elif op == 'resize': k = g.size(0, 12, big); ev.append(E(o, v, k, x)); sz[v] = k
        elif op == 'insert': ev.append(E(o, v, i, x)); sz[v] += 1
        elif op == 'find': ev.append(E(o, v, x, max(0, i)))
        elif op == 'set': ev.append(E(o, v, i, x))
        elif op in ('duplicate', 'copy_ctor', 'set_from_vec', 'set_from_vecr'): ev.append(E(o, v, w)); sz[v] = sz[w]
        elif op == 'ctor': k = g.size(0, 8, big); ev.append(E(o, v, r.choice(['vector', 'pool', 'std', 'ptr']), g.vec(k))); sz[v] = k
        elif op == 'set_from': k = g.size(0, 8, big); ev.append(E(o, v, r.choice(['vector', 'pool', 'data', 'std']), g.vec(k))); sz[v] = k
        elif op == 'is_equal': ev.append(E(o, v, w, r.choice([0.25, 1.25, 0.001])))
        elif op in ('flatten', 'flattenn'):
            ws = [r.choice(list(sz)) for _ in range(r.randint(0, 3))]
            if op == 'flatten': ws = [x for x in ws if x != v]
            if sum(sz[x] for x in ws) > 300: continue
            ev.append(E(o, v, ws) if op == 'flatten' else E(o, v, w, ws)); sz[v] = sum(sz[x] for x in ws)
    return ev
def run(c):
    exe = vf.build(['la.cpp', 'ops_vec.cpp'], 'core')
    cfg = vf.GEN_CFG + 'CONSTANTS Vals = {1, 2}\nMaxLen = %d\n' % c.n(3, 4)
    scripts = c.gen(vf.gen_module('VecGen'), cfg, props=dict(depth=12), name='VecGen exploration')
    lim = c.n(30000, 400000)
    if len(scripts) > lim:
        scripts = c.rng.sample(scripts, lim)
    c.conform(exe, 'LaSpec', scripts, name='exhaustive small scope')
    g = G(c.rng)
    c.conform(exe, 'LaSpec', [rand_script(g, 40, 40) for _ in range(c.n(500, 10000))], name='random histories')
    c.conform(exe, 'LaSpec', [rand_script(g, 15, 200) for _ in range(c.n(100, 1500))], name='random histories, long vectors')
    c.assumptions = ['real_t is double in the harness build', 'sizes to 300 elements in the random histories']
