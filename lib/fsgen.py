# Scripts for files and directories.
import struct
import vf
from gen import E
TXT = [[], [97], [97, 98, 99], [233], [8364, 32, 98], [34], [97, 34, 98], [44], [97, 44, 98], [10], [97, 10, 98], [32], [9, 97], [128512], [65, 59, 66], [34, 34], [44, 34, 10]]
def text(r): return r.choice(TXT) if r.random() < .7 else [r.choice([97, 98, 34, 44, 10, 32, 59, 233, 8364, 128512, 48, 9]) for _ in range(r.randint(0, 12))]
def data(r): return [r.choice([0, 1, 10, 13, 32, 34, 44, 97, 98, 195, 169, 255, 128]) for _ in range(r.choice([0, 1, 2, 3, 5, 8, 17]))]
def lines(r): return [c for _ in range(r.randint(0, 5)) for c in [r.choice([97, 98, 34, 44, 32, 49, 13]) for _ in range(r.randint(0, 5))] + r.choice([[10], [10], [13, 10], [0], [10, 10]])][:-1 if r.random() < .4 else None]
def val(r, n):
    if n == 's8': return [r.randint(0, 255)]
    if n == 'sf': return list(struct.pack('<f', r.choice([0.0, -0.0, 1.5, -3.25e10, 1e-40, float('inf'), r.uniform(-1, 1)])))
    if n in ('sd', 'sr'): return list(struct.pack('<d', r.choice([0.0, -0.0, 1.1, -2.5e300, 5e-324, float('-inf'), r.uniform(-1e6, 1e6)])))
    w = {'s16': 2, 's32': 4, 's64': 8}[n]
    return [r.choice([0, 1, 127, 128, 255, r.randint(0, 255)]) for _ in range(w)]
def path(r, names=(0, 1, 2, 3, 4, 5), deep=(1, 1, 1, 2, 2, 3)): return [r.choice(names) for _ in range(r.choice(deep))]
def put(r, h):
    m = r.choice(['s8', 's16', 's32', 's64', 'sf', 'sd', 'sr', 'sbuf', 'sbv', 'sstr', 'sline', 'spas', 'scsv'])
    if m in ('sbuf', 'sbv'): return E('F', m, h, data(r) if r.random() < .6 else lines(r))
    if m in ('sstr', 'sline', 'spas'): return E('F', m, h, text(r))
    if m == 'scsv': return E('F', m, h, [text(r) for _ in range(r.randint(1, 4))], r.choice([44, 44, 59, 32]))
    return E('F', m, h, val(r, m))
def get(r, h):
    m = r.choice(['g8', 'g16', 'g32', 'g64', 'gf', 'gd', 'gr', 'gbuf', 'gbuf', 'gline', 'gline', 'gcsv', 'gtok', 'gtok', 'gutf', 'gpas'])
    return E('F', m, h, *([r.choice([0, 1, 3, 7, 40])] if m == 'gbuf' else [r.choice([44, 59])] if m == 'gcsv' else [r.random() < .5] if m == 'gutf' else []))
def hand(r, n, names=(0, 1, 4)):
    """two handles on a few files"""
    ev = []
    if r.random() < .5: ev.append(E('D', 'mk', dict(a=[5]))); 
    if r.random() < .3: ev.append(E('D', 'link', dict(a=[r.choice([0, 1])]), dict(a=[4])))
    for _ in range(r.randint(0, 2)): ev.append(E('S', 'writeb', [r.choice([0, 1])], lines(r) if r.random() < .6 else data(r)))
    P = lambda: [5] + path(r, names, (1,)) if r.random() < .2 else path(r, names, (1,)) if r.random() < .95 else r.choice([[], [0, 1], [5], [3, 0]])
    for _ in range(n):
        h = r.choice(['f1', 'f1', 'f1', 'f2']); x = r.random()
        if x < .16: ev.append(E('F', 'open', h, P(), r.choice([1, 1, 2, 3, 3, 7, 7, 7, 0, 5] if r.random() < .3 else [1, 1, 2, 3, 7])))
        elif x < .45: ev.append(put(r, h))
        elif x < .75: ev.append(get(r, h))
        elif x < .85: ev.append(E('F', 'seek', h, r.choice([0, 0, 0, 1, 2, 5, 9, 30])))
        elif x < .88: ev.append(E('F', 'end', h, r.choice([0, 0, -1, -4, 3])))
        elif x < .94: ev.append(E('F', r.choice(['len', 'flush', 'path', 'close', 'drop', 'close']), h))
        elif x < .96: ev.append(E('F', 'swap', h, r.random() < .6))
        else: ev.append(whole(r, P))
    return ev
def whole(r, P):
    m = r.choice(['exists', 'isfile', 'read', 'text', 'write', 'writeb', 'perm', 'chmod', 'backup', 'read', 'write'])
    a = [text(r)] if m == 'write' else [data(r)] if m == 'writeb' else [r.choice([0o600, 0o644, 0o755, 0o666, 0o700, 0o640])] if m == 'chmod' else [r.random() < .5] if m == 'backup' else []
    return E('S', m, [] if m == 'backup' else P(), *a)
def trip(r, n=10):
    """store values of every kind, then read them back in order"""
    sw = r.random() < .4; ev = [E('F', 'open', 'f1', [0], 7)] + ([E('F', 'swap', 'f1', True)] if sw else []); back = []
    for _ in range(n):
        e = put(r, 'f1'); m = e['a'][0]
        if m == 'sstr' or (m == 'sline' and 10 in e['a'][2]): continue
        ev.append(e)
        back.append(E('F', 'g' + m[1:], 'f1') if m[1:] in ('8', '16', '32', '64', 'f', 'd', 'r', 'pas', 'line') else E('F', 'gbuf', 'f1', len(e['a'][2])) if m in ('sbuf', 'sbv') else E('F', 'gcsv', 'f1', e['a'][3]))
    if r.random() < .5: ev += [E('F', 'seek', 'f1', 0)] + back
    else: ev += [E('F', 'close', 'f1'), E('F', 'open', 'f2', [0], 1)] + ([E('F', 'swap', 'f2', True)] if sw else []) + [E('F', b['a'][0], 'f2', *b['a'][2:]) for b in back] + [E('F', 'g8', 'f2')]
    return ev
def dirs(r, n, names=(0, 1, 2, 3, 5), handles=False):
    def path(deep=(0, 1, 1, 1, 2, 2, 3)): return [r.choice(names) for _ in range(r.choice(deep))]
    A = lambda deep=(1, 1, 1, 2, 2, 3): dict(a=path(deep)) if r.random() < .55 else dict(r=path(deep))
    Ab = lambda deep=(1, 1, 2, 2, 3): dict(a=path(deep))
    ev = []
    for _ in range(r.randint(2, 5)): ev.append(r.choice([lambda: E('D', 'mkr', Ab()), lambda: E('S', 'writeb', path((1, 2, 2)), data(r)), lambda: E('D', 'mk', Ab((1, 2)))])())
    for _ in range(n):
        m = r.choice(['mk', 'mk', 'mkr', 'cd', 'cd', 'fe', 'de', 'ex', 'full', 'ren', 'ren', 'rm', 'rm', 'ls', 'ls', 'erase', 'cp', 'cp', 'cpd', 'cpd', 'islink', 'rdlink', 'link', 'cwd', 'S', 'S', 'S', 'H'])
        if m == 'S':
            e = whole(r, path)
            if e['a'][0] == 'backup' and r.random() < .5: continue
            if r.random() < .04: e = E('S', 'big', path((1, 2)), r.choice([65536, 65537, 131072, 70000, 65535]))
            ev.append(e)
        elif m == 'H':
            if handles: ev.append(r.choice([lambda: E('F', 'open', 'f1', path((1, 2)), r.choice([1, 2, 3, 7])), lambda: E('F', 'sbuf', 'f1', data(r)), lambda: E('F', 'close', 'f1')])())
        elif m == 'cd': ev.append(E('D', 'cd', A() if r.random() < .6 else r.choice([dict(r=[-1]), dict(a=[]), dict(r=[-1, r.choice(names)]), dict(r=[r.choice(names), -1, r.choice(names)])])))
        elif m == 'ls': ev.append(E('D', 'ls', r.random() < .5))
        elif m == 'erase':
            if r.random() < .5: ev.append(E('D', 'erase'))
        elif m == 'cwd': ev.append(E('D', 'cwd'))
        elif m == 'ren': ev.append(E('D', 'ren', A(), A()))
        elif m == 'cp': ev.append(E('D', 'cp', Ab(), Ab(), r.choice([-1, -1, 0o600, 0o755, 0o666])))
        elif m == 'cpd': ev.append(E('D', 'cpd', A((0, 1, 1, 2)), Ab((1, 1, 2, 3)), r.choice([-1, -1, 0o640]), r.random() < .6))
        elif m == 'link': ev.append(E('D', 'link', Ab((1, 1, 2)), A()))
        else: ev.append(E('D', m, A((0, 1, 1, 2, 3))))
    return ev
def explore(c, mode, depth, limit):
    s = c.gen(vf.gen_module('FsGen'), vf.GEN_CFG + 'CONSTANTS Mode = "%s"\n' % mode, props=dict(depth=depth), name='FsGen ' + mode)
    return s if len(s) <= limit else c.rng.sample(s, limit)
