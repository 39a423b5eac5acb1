# Scripts for reference histories.
import vf
from gen import E
def explore(c, kinds, classes, nobj, depth, maxlist=1, limit=None):
    cfg = vf.GEN_CFG + 'CONSTANTS Kinds = <<%s>>\nClasses = {%s}\nMaxObj = %d\nMaxList = %d\n' % (', '.join('"%s"' % k for k in kinds), ', '.join('"%s"' % k for k in classes), nobj, maxlist)
    mod = vf.gen_module('RefGen', '')
    # constants that are sequences cannot be given in a cfg file
    mod = (mod[0], mod[1].replace('VARIABLES st, hist', 'KindsV == <<%s>>\nVARIABLES st, hist' % ', '.join('"%s"' % k for k in kinds)))
    cfg = cfg.replace('Kinds = <<%s>>' % ', '.join('"%s"' % k for k in kinds), 'Kinds <- KindsV')
    s = c.gen(mod, cfg, props=dict(depth=depth), name='RefGen exploration of ' + '+'.join(kinds) + ' over ' + '+'.join(classes))
    return s if not limit or len(s) <= limit else c.rng.sample(s, limit)
SC = ['base', 'der', 'oth', 'ref', 'ptr', 'var']
MAKE = dict(base=['Base', 'Der'], der=['Der'], oth=['Oth'], ref=['Base', 'Der', 'Oth'], ptr=['Base', 'Der', 'Oth'], var=['Base', 'Der', 'Oth'])
def rand(r, n, par=False):
    ev = []; k = {}; nid = 0; plains = []
    def new(kind):
        v = 's%d' % len(k); k[v] = kind; ev.append(E('R.new', v, kind)); return v
    for kind in r.sample(SC, r.randint(2, 5)) + r.sample(['vec', 'vec', 'arr'], r.randint(0, 3)): new(kind)
    for _ in range(n):
        sc = [v for v in k if k[v] in SC]; li = [v for v in k if k[v] not in SC]
        a = r.choice(sc); b = r.choice(sc)
        f = r.choice(['make'] * 3 + ['set'] * 5 + ['raw', 'null', 'null', 'swap', 'nset', 'nset', 'nset', 'nget', 'nget', 'nget', 'mset', 'mget', 'eq', 'new', 'cons', 'del'] + ['push', 'push', 'lset', 'lget', 'lget', 'remove', 'clear', 'copy'] * (1 if li else 0) + ['onew', 'ofree', 'onofree', 'ovar', 'ovar', 'omset'] + (['par'] if par else []))
        if f == 'make': nid += 1; ev.append(E('R.make', a, r.choice(MAKE[k[a]]), nid, r.random() < .5))
        elif f in ('set', 'raw', 'nset', 'nget', 'mset', 'mget'): ev.append(E('R.' + f, a, b))
        elif f == 'null': ev.append(E('R.null', a))
        elif f == 'par': ev.append(E('R.par', a, r.randint(2, 4), r.choice([1, 5, 60])))
        elif f in ('swap', 'eq'):
            c = [v for v in sc if k[v] == k[a] and (v != a or f == 'eq')]
            if c: ev.append(E('R.' + f, a, r.choice(c)))
        elif f == 'new' and len(k) < 9: new(r.choice(SC))
        elif f == 'cons' and len(k) < 9: v = 's%d' % len(k); k[v] = r.choice([k[a], k[a], r.choice(SC)]); ev.append(E('R.cons', v, a, k[v]))
        elif f == 'del' and len(sc) > 2 and list(k)[-1] == a: ev.append(E('R.del', a)); del k[a]
        elif f == 'push': ev.append(E('L.push', r.choice(li), a))
        elif f == 'lset': ev.append(E('L.set', r.choice(li), r.randint(0, 3), a))
        elif f == 'lget': ev.append(E('L.get', a, r.choice(li), r.randint(0, 3)))
        elif f == 'remove': ev.append(E('L.remove', r.choice(li), r.randint(0, 3)))
        elif f == 'clear' and r.random() < .3: ev.append(E('L.clear', r.choice(li)))
        elif f == 'copy':
            vs = [v for v in li if k[v] == 'vec']
            if vs: ev.append(E('L.copy', r.choice(vs), r.choice(vs)))
        elif f == 'onew': nid += 1; plains.append(nid); ev.append(E('O.new', nid))
        elif plains:
            p = r.choice(plains); vs = [v for v in sc if k[v] == 'var']
            if f == 'ofree': ev.append(E('O.free', p))
            elif f == 'onofree': ev.append(E('O.nofree', p))
            elif f == 'ovar' and vs: ev.append(E('O.var', r.choice(vs), p))
            elif f == 'omset': ev.append(E('O.mset', p, a))
    return ev
