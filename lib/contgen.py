# Scripts for the generic containers.
import vf
from gen import E
def explore(c, kind, vals, maxlen, depth=30, limit=None):
    cfg = vf.GEN_CFG + 'CONSTANTS Kind = "%s"\nVals = {%s}\nMaxLen = %d\n' % (kind, ', '.join(map(str, vals)), maxlen)
    s = c.gen(vf.gen_module('ContGen'), cfg, props=dict(depth=depth), name='ContGen exploration of ' + kind)
    for x in s: x['ev'] += closing(x['ev'])
    return s if not limit or len(s) <= limit else c.rng.sample(s, limit)
def closing(ev):
    live = []
    for e in ev:
        if e['op'] in ('Q.new', 'Q.copy', 'Q.conv') and e['a'][0] not in live: live.append(e['a'][0])
        if e['op'] == 'Q.del' and e['a'][0] in live: live.remove(e['a'][0])
    return [E('Q.del', k) for k in live]
NOARG = lambda *n: [(x, '') for x in n]
# name, argument pattern: v value, i index in range, p insertion position, a any index, n size, k key
SEQ = dict(
    vec=[('push', 'v')] * 3 + [('remove', 'a'), ('erase', 'v'), ('insert', 'pv'), ('insert', 'av'), ('set', 'iv'), ('wset', 'iv'), ('pset', 'iv'), ('selfset', 'ii'), ('resize', 'n'), ('fill', 'v'), ('selffill', 'i'),
         ('invert', ''), ('sort', ''), ('oins', 'v'), ('find', 'va'), ('slice', 'ss'), ('slice', 's'), ('get', 'i'), ('empty', '')],
    pool=[('push', 'v')] * 3 + [('remove', 'a'), ('insert', 'pv'), ('insert', 'av'), ('set', 'iv'), ('wset', 'iv'), ('pset', 'av'), ('resize', 'n'), ('fill', 'v'), ('invert', ''), ('sort', ''), ('find', 'va'), ('rfind', 'vs'),
          ('count', 'v'), ('sub', 'ss'), ('locked', 'n'), ('snap', 'iv'), ('get', 'i'), ('empty', '')],
    lvec=[('push', 'v')] * 3 + [('remove', 'u'), ('removeu', 'u'), ('erase', 'v'), ('erasem', 'v'), ('insert', 'pv'), ('insert', 'uv'), ('set', 'iv'), ('pset', 'iv'), ('resize', 'n'), ('reserve', 'n'), ('fill', 'v'), ('invert', ''),
          ('sort', ''), ('oins', 'v'), ('find', 'vu'), ('reset', ''), ('get', 'i'), ('empty', '')],
    list=[('push', 'v')] * 2 + [('pushf', 'v')] * 2 + [('popf', ''), ('popb', ''), ('insa', 'pv'), ('insb', 'pv'), ('remove', 'i'), ('erasea', 'i'), ('erase', 'v'), ('tob', 'i'), ('tof', 'i'), ('before', 'ii'), ('before', 'im'), ('swap', 'ii'),
          ('set', 'iv'), ('invert', ''), ('sort', ''), ('sorti', ''), ('sortd', ''), ('find', 'v'), ('get', 'i'), ('empty', '')])
def seq(r, kind, n, big=False):
    base = kind.split('.')[0]; ops = SEQ['lvec' if base == 'tvec' else base]
    ev = []; sz = {}; vals = [r.randint(-9, 9) for _ in range(4)]; cap = 400 if big else 40
    names = ['a', 'b', 'c', 'd']
    for _ in range(n):
        p = r.random()
        if not sz or (p < 0.06 and len(sz) < 4):
            v = r.choice([x for x in names if x not in sz]); ev.append(E('Q.new', v, kind)); sz[v] = 0; continue
        v = r.choice(list(sz)); w = r.choice(list(sz))
        if p < 0.14 and len(sz) < 4: u = r.choice([x for x in names if x not in sz]); ev.append(E('Q.copy', u, v)); sz[u] = sz[v]; continue
        if p < 0.22: ev.append(E('Q.assign', v, w)); sz[v] = sz[w]; continue
        if p < 0.25: ev.append(E('Q.del', v)); del sz[v]; continue
        if p < 0.3 and base in ('vec', 'pool'):
            if sz[v] + sz[w] <= cap: ev.append(E('Q.append', v, w)); sz[v] += sz[w]
            continue
        f, pat = r.choice(ops); s = sz[v]; a = []
        if f == 'find' and base == 'list': pat = 'v'
        if f in ('fill', 'reset', 'selffill') and r.random() < 0.6: continue
        if ('i' in pat) and s == 0: continue
        if f == 'push' and s > cap: continue
        for ch in pat:
            if ch == 'v': a.append(r.choice(vals) if r.random() < 0.7 else r.randint(-50, 50))
            elif ch == 'i': a.append(r.choice([0, s - 1, r.randrange(s)]))
            elif ch == 'p': a.append(r.choice([0, s, r.randint(0, s)]))
            elif ch == 'a': a.append(r.choice([-1, 0, s - 1, s, s + 1, r.randint(0, s)]))
            elif ch == 'u': a.append(max(0, r.choice([0, s - 1, s, s + 1, r.randint(0, s)])))
            elif ch == 's': a.append(r.randint(-s - 2, s + 2))
            elif ch == 'n': a.append(r.choice([0, 1, s, s + 1, max(0, s - 1), r.randint(0, cap if big else 12), 8, 16]) if r.random() < 0.8 else s)
            elif ch == 'm': a.append(-1)
        if f == 'locked' and a[0] == s: continue
        if f in ('resize',) and base in ('vec', 'pool') and r.random() < 0.05: a = [-1]
        ev.append(E('Q', v, f, *a))
        # only sizes are tracked here; the specification decides what each call does
        if f in ('push', 'pushf', 'oins', 'insa', 'insb'): sz[v] += 1
        elif f == 'insert' and 0 <= a[0] <= s: sz[v] += 1
        elif f in ('popf', 'popb') and s: sz[v] -= 1
        elif f in ('remove', 'removeu', 'erasea') and 0 <= a[0] < s: sz[v] -= 1
        elif f in ('erase', 'erasem'):
            ev.append(E('Q', v, 'resize', 5) if base in ('vec', 'lvec', 'tvec') else E('Q', v, 'clear')); sz[v] = 5 if base in ('vec', 'lvec', 'tvec') else 0
        elif f == 'resize' and a[0] >= 0: sz[v] = a[0]
        elif f == 'locked' and s == 0: sz[v] = a[0]
        elif f in ('reset', 'clear'): sz[v] = 0
    return ev + [E('Q.del', v) for v in sz]
def ring(r, n):
    p = r.randint(0, 5); ev = [E('Q.new', 'a', 'ring', p)]; d = 0; cap = 2 ** p - 1; k = 0
    for _ in range(n):
        f = r.choice(['write', 'write', 'writen', 'writen', 'read', 'readn', 'copy', 'find', 'adv', 'dec', 'resize', 'copyto'])
        if f == 'write': k += 1; ev.append(E('Q', 'a', f, k % 50)); d = min(cap, d + 1)
        elif f == 'writen': m = r.randint(0, cap + 2); ev.append(E('Q', 'a', f, [(k + i) % 50 for i in range(m)])); k += m; d = min(cap, d + m)
        elif f == 'read': ev.append(E('Q', 'a', f)); d = max(0, d - 1)
        elif f == 'readn': m = r.randint(0, cap + 2); b = r.random() < 0.7; ev.append(E('Q', 'a', f, m, b)); d -= min(d, m) if b else 0
        elif f == 'copy': ev.append(E('Q', 'a', f, r.randint(0, d + 1), r.randint(0, cap + 2)))
        elif f == 'find': ev.append(E('Q', 'a', f, r.randrange(50) if r.random() < .3 else (k - r.randint(0, d + 1)) % 50, r.randint(0, d + 1), r.randint(0, cap + 2)))
        elif f in ('adv', 'dec'): m = r.randint(0, cap + 2); ev.append(E('Q', 'a', f, m)); d -= min(d, m)
        elif f == 'copyto': ev += [E('Q.copy', 'b', 'a'), E('Q', 'b', 'write', 1), E('Q', 'b', 'read'), E('Q.assign', 'a', 'b'), E('Q.del', 'b')]; d = max(0, min(cap, d + 1) - 1)
        elif f == 'resize' and r.random() < 0.4:
            q = r.randint(0, 6)
            if 2 ** q - 1 >= d: ev.append(E('Q', 'a', f, q)); cap = 2 ** q - 1
    return ev + [E('Q.del', 'a')]
MAP = dict(
    rbmap=['ins', 'ref', 'touch', 'has', 'erase', 'erasea', 'get', 'near', 'step', 'size', 'balanced', 'clear'],
    rbset=['ins', 'has', 'erase', 'erasea', 'get', 'lower', 'step', 'size', 'balanced', 'clear'],
    vmap=['ins', 'ref', 'touch', 'vset', 'has', 'erase', 'get', 'nearest', 'size'], vset=['ins', 'has', 'erase', 'get', 'size'],
    hmap=['ins', 'insf', 'ref', 'touch', 'has', 'erase', 'get', 'step', 'reserve', 'size', 'clear'], hset=['ins', 'has', 'erase', 'remove', 'get', 'reserve', 'reset', 'size', 'clear'],
    oghash=['ins', 'ref', 'touch', 'has', 'erase', 'get', 'size', 'clear'], ohash=['ins', 'ref', 'touch', 'has', 'erase', 'erasee', 'get', 'step', 'size', 'clear'])
SETS = ('rbset', 'vset', 'hset')
def map_(r, kind, n, keys, shrink=0.3):
    base = kind.split('.')[0]; ops = MAP[base]; ev = []; S = {}; names = ['a', 'b', 'c']
    K = r.sample(range(-1000 if keys > 100 else 0, 1000 if keys > 100 else keys + 2), keys)
    grow = True
    for _ in range(n):
        p = r.random()
        if not S or (p < 0.02 and len(S) < 3):
            v = r.choice([x for x in names if x not in S]); ev.append(E('Q.new', v, kind)); S[v] = set(); continue
        v = r.choice(list(S)); w = r.choice(list(S)); s = S[v]
        if p < 0.05 and len(S) < 3: u = r.choice([x for x in names if x not in S]); ev.append(E('Q.copy', u, v)); S[u] = set(s); continue
        if p < 0.07: ev.append(E('Q.assign', v, w)); S[v] = set(S[w]); continue
        if p < 0.08: ev.append(E('Q.del', v)); del S[v]; continue
        if r.random() < 0.02: grow = not grow
        f = r.choice(ops) if r.random() < 0.5 else ('ins' if (r.random() < 0.8) == grow else 'erase')
        k = r.choice(K) if r.random() < 0.6 or not s else r.choice(sorted(s))
        if f in ('clear', 'reset') and r.random() < 0.9: continue
        if f == 'step' and k not in s or f in ('erasea', 'vset') and not s: continue
        if f in ('ins', 'insf', 'ref'): ev.append(E('Q', v, f, k, r.randint(1, 9)) if base not in SETS else E('Q', v, f, k)); s.add(k)
        elif f == 'touch': ev.append(E('Q', v, f, k)); s.add(k)
        elif f == 'erasea': i = r.randrange(len(s)); ev.append(E('Q', v, f, i)); s.discard(sorted(s)[i])
        elif f == 'vset': ev.append(E('Q', v, f, r.randrange(len(s)), r.randint(1, 9)))
        elif f in ('erase', 'erasee', 'remove'): ev.append(E('Q', v, f, k)); s.discard(k)
        elif f == 'reserve': ev.append(E('Q', v, f, r.choice([0, 5, 30, 60, 100])))
        elif f in ('size', 'balanced'): ev.append(E('Q', v, f))
        elif f in ('clear', 'reset'): ev.append(E('Q', v, f)); s.clear()
        else: ev.append(E('Q', v, f, k if f == 'step' or r.random() < .8 else k + 1))
    return ev + [E('Q.del', v) for v in S]
def perms(r, kind, m):
    """insert m keys in some order, erase them in another, watching the tree"""
    a = list(range(1, m + 1)); b = a[:]; r.shuffle(a); r.shuffle(b)
    ev = [E('Q.new', 'a', kind)] + [E('Q', 'a', 'ins', k, k) if kind not in SETS else E('Q', 'a', 'ins', k) for k in a]
    ev += [E('Q', 'a', 'balanced')] if kind in ('rbmap', 'rbset') else []
    for k in b: ev.append(E('Q', 'a', 'erase', k))
    return ev + [E('Q', 'a', 'size'), E('Q.del', 'a')]
def sorting(r, n=40):
    ev = []
    for _ in range(n):
        m = r.choice([0, 1, 2, 3, 5, 8, 16, 17, 18, 33, 40, 70]); kk = r.choice([1, 2, 5, 100])
        v = [[r.randint(0, kk), i] for i in range(m)]
        if r.random() < 0.3: v.sort(reverse=r.random() < 0.5)
        how = r.choice(['sort', 'range', 'nth', 'nth', 'deep', 'heap', 'partial', 'intro'])
        f = r.randint(0, m); l = r.randint(f, m)
        if how == 'sort': f, l = 0, m
        k = r.randint(f, l)
        if how in ('nth', 'deep'):
            if l == f: continue
            k = r.randint(f, l - 1)
        if how == 'intro': k = r.choice([0, 0, 1, 3])
        if how == 'partial' and k == f: continue
        ev.append(E('Q.sortarr', v, how, f, l, k))
    return ev
