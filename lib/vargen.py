# Scripts for dynamic values, arrays and dictionaries.
import vf
from gen import E
XS = ['x1', 'x2', 'x3', 'x4']
def cp(s): return [ord(c) for c in s]
STR = ['', 'a', 'ab', 'b', '12', '-3', 'aXb', 'é']
def explore(c, kinds, maxh, maxl, depth, limit=None):
    cfg = vf.GEN_CFG + 'CONSTANTS Kinds = {%s}\nMaxH = %d\nMaxL = %d\n' % (', '.join('"%s"' % k for k in kinds), maxh, maxl)
    s = c.gen(vf.gen_module('VarGen'), cfg, props=dict(depth=depth), name='VarGen exploration')
    return s if not limit or len(s) <= limit else c.rng.sample(s, limit)
class V:
    def __init__(self, r, kinds=None): self.r = r; self.kinds = kinds
    def int(self): return self.r.choice([0, 1, 2, 3, -1, -2, 7, 100, self.r.randint(-100, 100)])
    def q(self): return 16 * self.r.choice([0, 4, 2, 1, -2, 8, -4, self.r.randint(-40, 40)])
    def text(self): return cp(self.r.choice(STR))
    def lit(self, kinds=None):
        r = self.r; k = r.choice(kinds or self.kinds or ['n', 'b', 'i', 'i', 'i', 'r', 'r', 's', 's', 'nm', 'pb', 'pi', 'pr', 'ps'])
        L = lambda f: [f() for _ in range(r.choice([0, 1, 2, 2, 3]))]
        return {k: 0 if k == 'n' else r.random() < .5 if k == 'b' else self.int() if k == 'i' else self.q() if k == 'r' else self.text() if k in ('s', 'nm')
                else [r.randint(-5, 5) for _ in range(4)] if k == 'ri' else [r.randint(-5, 5) for _ in range(2)] if k == 'v2' else [r.randint(-3, 4) for _ in range(3)] if k == 'v3'
                else L(lambda: r.randint(0, 255)) if k == 'pb' else L(self.int) if k == 'pi' else L(self.q) if k == 'pr' else L(self.text)}
    def arg(self, pref=.45, kinds=None): return {'x': self.r.choice(XS)} if self.r.random() < pref else self.lit(kinds)
def array(r, n, kinds=None):
    g = V(r, kinds); ev = [E('newa', 'x1', *[g.lit() for _ in range(r.randint(0, 4))]), E('newa', 'x2', *[g.lit() for _ in range(r.randint(0, 3))]), E('copy', 'x3', r.choice(['x1', 'x2']))]
    b = lambda: dict(b=r.random() < .5); i = lambda lo=-6, hi=6: dict(i=r.randint(lo, hi))
    for _ in range(n):
        s = r.choice(['x1', 'x1', 'x2', 'x3', 'x4']); d = r.choice(XS)
        m = r.choice(['push', 'push', 'push', 'append1', 'append', 'insert', 'insert', 'size', 'remove', 'resize', 'fill', 'front', 'back', 'get', 'set', 'find', 'rfind', 'has', 'erase', 'push_front', 'pop_back', 'pop_front', 'pop_at', 'dup', 'slice', 'slice', 'min', 'invert', 'sort', 'sort', 'shuffle', 'bsearch', 'bsearch', 'cmp', 'cmp', 'newa', 'copy', 'lit', 'clear', 'str'])
        if m == 'newa': ev.append(E('newa', d, *[g.arg(.2) for _ in range(r.randint(0, 4))]))
        elif m == 'copy': ev.append(E('copy', d, s))
        elif m == 'lit': ev.append(E('lit', 'x4', g.lit()))
        elif m == 'str': ev.append(E('V', 'str', '', s))
        else:
            to = d if m in ('front', 'back', 'get', 'pop_back', 'pop_front', 'pop_at', 'dup', 'slice') and r.random() < .5 else ''
            a = {'push': lambda: [g.arg()], 'append1': lambda: [g.arg()], 'append': lambda: [{'x': r.choice(XS)}], 'cmp': lambda: [{'x': r.choice(XS)}], 'insert': lambda: [i(-1, 6), g.arg()], 'remove': lambda: [i(-1, 6)],
                 'resize': lambda: [i(0, 6)], 'fill': lambda: [g.arg()], 'get': lambda: [i(0, 5)], 'set': lambda: [i(0, 5), g.arg()], 'find': lambda: [g.arg(.2), i(-1, 4)], 'rfind': lambda: [g.arg(.2), i()], 'has': lambda: [g.arg(.2)],
                 'erase': lambda: [g.arg(.3)], 'push_front': lambda: [g.arg()], 'pop_at': lambda: [i()], 'dup': lambda: [b()], 'slice': lambda: [i(), i(), i(-3, 3), b()], 'bsearch': lambda: [g.arg(.2), b()]}.get(m, lambda: [])()
            ev.append(E('A', m, to, s, *a))
    return ev
KEYS = [dict(i=0), dict(i=1), dict(r=64), dict(r=0), dict(s=cp('a')), dict(nm=cp('a')), dict(s=[]), dict(n=0), dict(b=True), dict(b=False), dict(s=cp('b')), dict(pi=[1]), dict(r=16), dict(i=7)]
def dictionary(r, n):
    g = V(r); ev = [E('newd', 'x1'), E('newd', 'x2'), E('copy', 'x3', r.choice(['x1', 'x2']))]; ks = r.sample(KEYS, r.randint(3, len(KEYS))); key = lambda: r.choice(ks)
    b = lambda: dict(b=r.random() < .5)
    for _ in range(n):
        s = r.choice(['x1', 'x1', 'x2', 'x3', 'x4']); d = r.choice(XS)
        m = r.choice(['set'] * 6 + ['at', 'add', 'add', 'get', 'get', 'size', 'erase', 'erase', 'merge', 'merge', 'find_key', 'idx', 'keys', 'values', 'next', 'dup', 'dup', 'cmp', 'has_all', 'clear', 'newa', 'newd', 'copy', 'Vget', 'Vset', 'getn', 'str', 'deep', 'lit', 'iter'])
        if m == 'newa': ev.append(E('newa', 'x4', *[key() for _ in range(r.randint(0, 3))]))
        elif m == 'newd': ev.append(E('newd', d))
        elif m == 'copy': ev.append(E('copy', d, s))
        elif m == 'lit': ev.append(E('lit', 'x4', g.lit()))
        elif m == 'Vget': ev.append(E('V', 'get', r.choice([d, '']), s, key()))
        elif m == 'Vset': ev.append(E('V', 'set', '', s, key(), r.choice([dict(i=r.randint(1, 120)), dict(s=cp('zz')), dict(n=0)])))
        elif m == 'getn': ev.append(E('V', 'getn', '', s, dict(s=cp(r.choice(['a', 'b', ''])))))
        elif m in ('str', 'iter'): ev.append(E('V', m, '', s))
        elif m == 'deep': ev.append(E('V', 'deep', '', s, {'x': d}))
        elif m == 'clear' and r.random() < .6: continue
        else:
            to = d if m in ('get', 'at', 'add', 'keys', 'values', 'dup') and r.random() < .5 else ''
            a = {'set': lambda: [key(), g.arg()], 'get': lambda: [key(), g.lit()], 'at': lambda: [key()], 'add': lambda: [key(), g.arg()], 'erase': lambda: [key()], 'merge': lambda: [{'x': d}, b()], 'cmp': lambda: [{'x': d}],
                 'has_all': lambda: [{'x': r.choice(['x4', d])}], 'find_key': lambda: [g.arg(.3)], 'idx': lambda: [dict(i=r.randint(-2, 5))], 'next': lambda: [key()], 'dup': lambda: [b()]}.get(m, lambda: [])()
            ev.append(E('D', m, to, s, *a))
    return ev
OPK = ['n', 'b', 'i', 'i', 'i', 'r', 'r', 's', 's', 'nm', 'pb', 'pi', 'pr', 'ps']
def values(r, n):
    g = V(r); ev = []
    if r.random() < .5: ev += [E('newa', 'x1', *[g.lit(['i', 's', 'r', 'n', 'b', 'pi']) for _ in range(r.randint(0, 3))]), E('newa', 'x2', *[g.lit(['i', 's', 'r']) for _ in range(r.randint(0, 3))])]
    if r.random() < .3: ev += [E('newd', 'x3')] + [E('D', 'set', '', 'x3', r.choice(KEYS), g.lit()) for _ in range(r.randint(0, 3))]
    b = lambda: dict(b=r.random() < .5); num = {'i', 'r'}
    same = lambda k: [E('lit', 'x3', g.lit([k])), E('lit', 'x4', g.lit([k]))]
    Z = [E('lit', 'x3', dict(n=0)), E('lit', 'x4', dict(n=0))]
    for _ in range(n):
        m = r.choice(['lit'] * 3 + ['copy', 'nest'] + ['ops'] * 5 + ['opslike'] * 3 + ['get', 'get', 'set', 'set', 'dup', 'str', 'bool', 'num', 'strict', 'strictlike', 'deep', 'sub', 'interp', 'blend', 'conv', 'fmt', 'fmt', 'iter', 'iter'])
        s = r.choice(XS); d = r.choice(XS)
        if m == 'lit': ev.append(E('lit', s, g.lit()))
        elif m == 'copy': ev.append(E('copy', d, s))
        elif m == 'nest': ev.append(E('newa', d, *[g.arg(.6) for _ in range(r.randint(0, 3))]))
        elif m == 'ops': ev.append(E('V', 'ops', '', s, g.arg(.7, OPK)))
        elif m == 'opslike':
            k = r.choice(['i', 'r', 's', 'pb', 'pi', 'pr', 'ps', 'b', 'ir'])
            if k == 'ir': ev += [E('lit', 'x3', g.lit(['i', 'r'])), E('V', 'ops', '', 'x3', g.lit(['i', 'r']))]
            elif k == 'i': ev += [E('lit', 'x3', g.lit(['i'])), E('V', 'ops', '', 'x3', dict(i=r.choice([0, 1, 3, 5, 15, -1, 64, 63, 100, 17, -7])))]
            else: ev += same(k) + [E('V', 'ops', '', 'x3', {'x': 'x4'})]
        elif m in ('strict', 'deep'): ev.append(E('V', m, '', s, g.arg(.7)))
        elif m == 'strictlike': ev += same(r.choice(OPK + ['ri', 'v2', 'v3'])) + [E('V', r.choice(['strict', 'deep']), '', 'x3', {'x': 'x4'})] + Z
        elif m == 'get': ev.append(E('V', 'get', r.choice([d, '', '']), s, r.choice([dict(i=r.randint(-4, 4)), dict(i=r.randint(-2, 1)), dict(r=64 * r.randint(-3, 3)), dict(s=cp('a')), dict(n=0)])))
        elif m == 'set': ev.append(E('V', 'set', '', s, r.choice([dict(i=r.randint(-4, 4)), dict(i=r.randint(-2, 1)), dict(i=0), dict(r=64 * r.randint(-3, 3)), dict(s=cp('a'))]), r.choice([dict(i=r.randint(1, 120)), dict(r=64 * r.randint(1, 100)), dict(s=cp('zz')), dict(n=0)])))
        elif m == 'dup': ev.append(E('V', 'dup', r.choice([d, '']), s, b()))
        elif m in ('str', 'bool', 'num'): ev.append(E('V', m, '', s))
        elif m == 'sub': ev += same(r.choice(['n', 'i', 'r', 'ri', 'v2', 'v3'])) + [E('V', 'sub', '', 'x3', {'x': 'x4'})] + Z
        elif m in ('interp', 'blend'):
            k = r.choice(['i', 'i', 'r', 'r', 'b', 'n'] + (['pi', 'pr'] if m == 'interp' else ['s', 'ps']))
            ev += same(k); ev.append(E('V', m, '', 'x3', r.choice([{'x': 'x4'}, {'x': 'x4'}, g.lit(['i', 'r'])]), dict(r=r.choice([0, 64, 32, 16, 48]))))
        elif m == 'conv':
            k = r.choice(['a', 'pi', 'pr', 'ps'])
            if r.random() < .3: ev.append(E('newa', 'x3', *[g.lit(['i', 'r', 's', 'b']) for _ in range(r.randint(0, 3))]))
            if r.random() < .2: ev += [E('lit', 'x3', dict(pi=[r.randint(0, 255) for _ in range(3)])), E('V', 'conv', '', 'x3', dict(t='pb'))]
            else: ev.append(E('V', 'conv', r.choice([d, '']), s, dict(t=k)))
        elif m == 'iter': ev += ([E('lit', s, g.lit(['i', 'r', 's', 'v2', 'v3', 'pb', 'pi', 'pr', 'ps']))] if r.random() < .6 else []) + [E('V', 'iter', '', s), E('lit', s, dict(i=2))]
        elif m == 'fmt': ev += fmt(r, g) + Z
    return ev
def fmt(r, g):
    out = ''; a = []
    for _ in range(r.choice([0, 1, 1, 2, 3])):
        out += r.choice(['', 'x', '%%', ' '])
        k = r.choice('ddddsssffxXoc'); f = '%'
        left = r.random() < .25
        if left: f += '-'
        if r.random() < .25: f += '+'
        if not left and k not in 'sc' and r.random() < .3: f += '0'
        w = r.choice([None, None, r.randint(1, 9), '*'])
        if w == '*': f += '*'; a.append(dict(i=r.randint(1, 9)))
        elif w: f += str(w)
        if k == 'f':
            p = r.choice([None, 2, 3, '*', 7])
            if p == '*': f += '.*'; a.append(dict(i=r.randint(2, 6)))
            elif p: f += '.%d' % p
            a.append(r.choice([dict(r=g.q()), dict(i=g.int())]))
        elif k == 's': a.append(g.lit(['i', 's', 'r', 'b', 'n', 'pi', 'ps', 'nm']))
        elif k == 'c': a.append(r.choice([dict(i=r.randint(33, 120)), dict(s=cp('q')), dict(s=cp('qq'))]))
        else: a.append(r.choice([dict(i=g.int())] * 5 + [dict(r=64 * r.randint(-20, 20)), dict(s=cp('12'))]))
        out += f + k
    t = r.random()
    if t < .06: a = a[:-1]
    elif t < .12: a = a + [dict(i=1)]
    elif t < .15: out += '%'
    elif t < .18: out += '%q'
    ev = [E('lit', 'x3', dict(s=cp(out)))]
    if len(a) == 1 and r.random() < .4: return ev + [E('V', 'fmt', '', 'x3', a[0])]
    return ev + [E('newa', 'x4', *a), E('V', 'fmt', '', 'x3', {'x': 'x4'})]
