# Scripts for allocators.
import vf
from gen import E
def explore(c, size, al, need, lens, depth, maxe=4, maxlock=1, limit=None):
    cfg = vf.GEN_CFG + 'CONSTANTS Size = %d\nAl = %d\nNeed = %s\nMaxE = %d\nLens = {%s}\nMaxLock = %d\n' % (size, al, 'TRUE' if need else 'FALSE', maxe, ', '.join(map(str, lens)), maxlock)
    s = c.gen(vf.gen_module('AllocGen'), cfg, props=dict(depth=depth), name='AllocGen size %d align %d%s' % (size, al, ', locks' if need else ''))
    return s if not limit or len(s) <= limit else c.rng.sample(s, limit)
def pool(r, n):
    kind = r.choice(['own', 'align', 'ext', 'ext']); al = r.choice([1, 2, 4, 8, 16]) if kind != 'own' else 1; size = al * r.choice([4, 8, 16, 40]); need = r.random() < .5; mx = r.choice([1, 3, 8, 20])
    ev = [E('A.new', kind, size + (r.choice([0, 1, 3]) if kind == 'ext' and al > 4 else 0), al, need, mx, r.choice([0, 0, 1, 5]))]
    if kind == 'ext' and ev[0]['a'][5] and al > 1: ev[0]['a'][1] += al
    live = {}; names = ['b%d' % i for i in range(8)]; lk = {}
    L = lambda: r.choice([1, 2, 3, al, al + 1, size // 4, size // 3, size // 2, size, r.randint(1, size), 0, -1, size - 1, size + 1])
    for _ in range(n):
        x = r.choice(names); k = r.choice(['alloc'] * 6 + ['free'] * 4 + ['resize'] * 5 + ['write'] * 2 + ['get', 'size', 'islocked'] + (['lock'] * 3 + ['unlock'] * 3 if need else ['lock', 'unlock']))
        if k == 'alloc':
            if x not in live: ev.append(E('A.alloc', x, L(), r.randint(0, 255))); live[x] = 1
        elif k == 'resize': ev.append(E('A.resize', x, L(), r.randint(0, 255)))
        elif k == 'write': ev.append(E('A.write', x, r.randint(0, size // 2), r.randint(0, 255)))
        else:
            if k == 'free' and lk.get(x, 0) == 0: live.pop(x, None)
            if k == 'lock': lk[x] = 1
            if k == 'unlock': lk[x] = 0
            ev.append(E('A.' + k, x))
    # a slot is only allocated again when it is surely free
    return ev
def sane(ev):
    """drop allocations into slots that may still be in use (a refused free keeps the block)"""
    out = []; may = set()
    for e in ev:
        x = e['a'][0]
        if e['op'] == 'A.alloc':
            if x in may: continue
            may.add(x)
        out.append(e)
        if e['op'] == 'A.free':
            need = ev[0]['a'][3]
            if not need: may.discard(x)
            elif x in may and not any(f['op'] == 'A.lock' and f['a'][0] == x for f in out): may.discard(x)
    return out
def pages(r, n):
    tr = r.random() < .4; ps = r.choice([1, 2, 3, 4, 8, 5]); ev = [E('G.new', tr, ps)]; live = []; names = ['c%d' % i for i in range(r.choice([3, 9, 20]))]; seen = False
    for _ in range(n):
        k = r.random(); x = r.choice(names)
        if k < .5 and x not in live: ev.append(E('G.alloc', x)); live.append(x); seen = True
        elif k < .65 and live: ev.append(E('G.put', r.choice(live), r.randint(0, 99)))
        elif k < .93 and live: x = r.choice(live); live.remove(x); ev.append(E('G.free', x))
        elif k < .97:
            f = r.random() < .4; ev.append(E('G.reset', f))
            if not live or (f and tr): live = []; seen = False
        else: ev.append(E('G.configure', r.choice([0, 1, 2, 3, 7])))
    return ev
