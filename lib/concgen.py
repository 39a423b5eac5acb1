# Concurrent programs for C.run: one list of calls per thread.
import vf
from gen import E
def build():
    h = vf.VERIF + '/harness/sched_hook.h'
    return vf.build(['ops_conc.cpp'], 'sfw', defs=('-include', h, '-D_HK=' + vf.sha(vf.rd(h))[:12]))
def build_free(): return vf.build(['ops_conc.cpp'], 'sfw', defs=('-DVS_FREE',), san='thread')
def num(r):
    f = r.choice(['set', 'get', 'inc', 'inc', 'pinc', 'dec', 'pdec', 'add', 'padd', 'sub', 'psub', 'xgt', 'xgt', 'cinc', 'cinc'])
    return ['n.' + f, r.randint(0, 4)]
def flag(r): return r.choice([['f.set'], ['f.clear'], ['f.to', r.random() < .5], ['f.get'], ['f.get']])
# groups of calls that can be put one after another in a thread without a deadlock
def lock(r, k):
    """capital letters: locks with attempts, where the composite calls (which are not one atomic step then) are left out"""
    inc = [r.choice([['g.inc'], ['n.inc']])]
    if k == 'm': return r.choice([[['m.cs']], [['m.lock'], ['m.lock'], ['m.cs'], ['m.unlock'], ['m.unlock']], [['m.lock'], ['m.cs'], ['m.unlock']], [['m.lock'], ['m.lock'], ['m.unlock']] + inc + [['m.unlock']]])
    if k == 'M': return r.choice([[['m.lock'], ['m.unlock']], [['m.lock']] + inc + [['m.unlock']], [['m.try'], ['m.rel']], [['m.try'], ['n.inc'], ['m.rel']], [['m.lock'], ['m.try']] + inc + [['m.rel']] + inc + [['m.unlock']]])
    if k == 'b': return r.choice([[['b.cs']], [['b.lock'], ['b.unlock']], [['b.lock']] + inc + [['b.unlock']]])
    if k == 'B': return r.choice([[['b.lock']] + inc + [['b.unlock']], [['b.try'], ['n.inc'], ['b.rel']], [['b.try'], ['b.rel']]])
    if k == 'p': return r.choice([[['p.cs']], [['p.lock'], ['p.unlock']], [['p.lock']] + inc + [['p.unlock']]])
    if k == 'w': return r.choice([[['w.put', r.randint(1, 3)]], [['w.see']], [['w.see']], [['w.rl'], ['n.get'], ['w.ru']], [['w.wl']] + inc + [['w.wu']]])
    return r.choice([[['w.rl'], ['n.get'], ['w.ru']], [['w.wl']] + inc + [['w.wu']], [['w.rt'], ['n.get'], ['w.rrel']], [['w.wt'], ['n.inc'], ['w.wrel']]])
def obj(r):
    # a reference is only copied from a holder of the same thread
    k = r.random()
    if k < .2: return [['o.copy']]
    if k < .4: return [['o.var']]
    if k < .5: return [['o.var'], ['o.drop'], ['o.take']]
    if k < .65: return [['o.drop']]
    if k < .75: return [['o.dropp']]
    if k < .85: return [['o.dropv']]
    return [['o.find']]
def vec(r, p):
    f = r.choice(['write', 'write', 'push', 'read', 'copy', 'drop'])
    return [p + '.' + f] + ([r.randint(0, 1), r.randint(5, 9)] if f == 'write' else [r.randint(5, 9)] if f in ('push', 'copy') else [])
def names(r, n):
    """a register is dropped before it is filled again, so that every call changes one name only"""
    out = []; used = set()
    while len(out) < n:
        k = r.random(); x = r.randint(0, 2)
        if k < .45 and x not in used: out.append(['s.make', x, r.choice([1, 1, 2, 2, 3, 4, 0, 5, 6]), r.choice(['ch', 'str', 'static'])]); used.add(x)
        elif k < .6 and x in used:
            y = r.randint(0, 2)
            if y not in used: out.append(['s.copy', x, y]); used.add(y)
        elif k < .75 and x not in used: out.append(['s.search', x, r.randint(0, 6), r.choice(['ch', 'str', 'wide'])]); used.add(x)
        elif k < .95 and x in used: out.append(['s.drop', x]); used.discard(x)
        elif x in used: out.append(['s.text', x])
    return out
def names1(r, n):
    """one thread: everything is allowed"""
    o = []
    for _ in range(n):
        x, y, t = r.randint(0, 3), r.randint(0, 3), r.randint(0, 6); k = r.random()
        if k < .3: o.append(['s.make', x, t, r.choice(['ch', 'str', 'static'])])
        elif k < .4: o.append(['s.copy', x, y])
        elif k < .5: o.append(['s.drop', x])
        elif k < .6: o.append(['s.search', x, t, r.choice(['ch', 'str', 'wide'])])
        elif k < .7: o.append(['s.eq', x, y])
        elif k < .8: o.append(['s.eqt', x, t])
        elif k < .87: o.append(['s.alph', x, y])
        else: o.append([r.choice(['s.text', 's.hash', 's.some', 's.node', 's.ctor', 's.var']), x])
    return o
def cells(r, n):
    out = []; used = set()
    while len(out) < n:
        x = r.randint(0, 2); k = r.random()
        if x not in used: out.append(['a.alloc', x, 0]); used.add(x)
        elif k < .5: out.append(['a.free', x, 0]); used.discard(x)
        elif k < .75: out.append(['a.put', x, r.randint(10, 99)])
        else: out.append(['a.get', x, 0])
    return out
def prog(r, what, n):
    """n calls (about) for one thread"""
    out = []
    while len(out) < n:
        if what == 'num': out.append(num(r) if r.random() < .8 else flag(r))
        elif what == 'rc': out.append(r.choice([['r.ref'], ['r.refval'], ['r.get'], ['r.get']]))
        elif what in 'mMbBpwW': out += lock(r, what)
        elif what == 'obj': out += obj(r)
        elif what in 'cd': out.append(vec(r, what))
        elif what == 'plain': out.append(r.choice([['v.make'], ['v.make'], ['v.drop'], ['v.new'], ['v.new']]))
        elif what == 'name': out = names(r, n)
        elif what == 'cells': out = cells(r, n)
    if what == 'rc': out.insert(r.randint(0, len(out)), [r.choice(['r.unref', 'r.unrefval'])])  # every thread gives back the one count it owns
    return out
def programs(r, what, threads, n):
    P = [prog(r, what, n) for _ in range(threads)]
    return P
def ev(r, what, threads, n, mode):
    P = programs(r, what, threads, n)
    return E('C.run', dict(n=r.randint(0, 2), f=r.random() < .5, r=threads), P, mode)
def theory(c, name, consts, ok, invs='Inv', defs='', extra=''):
    m = '---- MODULE M ----\nEXTENDS %s\n%s\n====\n' % (name, defs)
    cfg = ('SPECIFICATION Spec\n' if 'PROPERTY' in extra else 'INIT Init\nNEXT Next\n') + 'INVARIANT %s\nCHECK_DEADLOCK FALSE\n%s%s' % (invs, extra, consts)
    r = vf.tlc(('M', m), cfg, timeout=600)
    good = 'No error has been found' in r['out']
    if good != ok: raise vf.CheckError('%s: expected %s\n%s' % (name, ok, r['out'][-2500:]))
    c.states += r['distinct']; c.transitions += r['generated']; c.parts['%s%s' % (name, '' if ok else ' (faulty variant is rejected)')] = dict(distinct=r['distinct'], generated=r['generated'])
