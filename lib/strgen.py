# Scripts for strings.
import itertools, vf
from gen import E
T = lambda s: [ord(c) for c in s]
def explore(c, chars, maxlen, depth, limit=None):
    cfg = vf.GEN_CFG + 'CONSTANTS Chars = {%s}\nMaxLen = %d\n' % (', '.join(map(str, chars)), maxlen)
    s = c.gen(vf.gen_module('StrGen'), cfg, props=dict(depth=depth), name='StrGen exploration')
    return s if not limit or len(s) <= limit else c.rng.sample(s, limit)
def allstr(al, n): return [''.join(x) for k in range(n + 1) for x in itertools.product(al, repeat=k)]
def Qs(s, *qs): return [E('S.set', 'a', T(s))] + [E('Q', q[0], 'a', *[T(x) if isinstance(x, str) else [T(y) for y in x] if isinstance(x, (list, tuple)) and x and isinstance(x[0], str) else x for x in q[1:]]) for q in qs]
def latin(s): return all(ord(c) < 256 for c in s)
def search(r, s, k, full=True):
    n = len(s); o = []
    fs = range(-1, n + 2) if full else [r.randint(-1, n + 1)]
    for f in fs:
        o += [('find', k, f), ('findn', k, f), ('rfind', k, f), ('rfindn', k, f)]
        if latin(k): o.append(('findc', k, f))
    o += [('find_last', k), ('first_diff', k), ('begins', k), ('ends', k), ('enclosed', k), ('subseq', k), ('subseqi', k), ('ne', k), ('le', k), ('gt', k), ('ge', k), ('lt', k), ('eq', k), ('cmp', k), ('match', k), ('matchn', k), ('similarity', k), ('join', [k, s, k]), ('join', []), ('pool_join', [k, s, k]), ('pool_join', [])]
    if latin(k): o += [('beginsc', k), ('eqc', k), ('contains', k)]
    if s[:1] != '.' and k[:1] != '.': o.append(('natcmp', k))
    for i in range(n):
        o.append(('word_at', k, i))
        if latin(k): o.append(('word_atc', k, i))
    o += [('count', k, a, b) for a in range(-1, n + 1) for b in range(-1, n + 2)] + [('countn', k, 0, 0)]
    if len(k) == 1: o += [('find_char', ord(k), f) for f in range(0, n + 1)] + [('slicec', ord(k), i) for i in range(-1, n + 2)]
    o += [('slice_count', k)] + [('slice', k, i) for i in ([-1, 0] if not k or k not in s else range(-1, n + 2))]
    if k or s: o += [(f, k, e, m) for f in ('split', 'rsplit') for e in (True, False) for m in (0, 1, 2)]
    o += [('trim_prefix', k), ('trim_suffix', k), ('lstrip', k), ('rstrip', k), ('quote', k), ('indent', k)]
    for w in ('', 'a', k + k, 'xyz'):
        o += [('replace', k, w), ('replacen', k, w), ('replace_first', k, w)]
        if latin(k + w): o.append(('replacec', k, w))
    return o
def shape(s):
    n = len(s); o = [('length',), ('empty',), ('bigrams',), ('quoted',), ('unquote',), ('split_spaces',), ('br',), ('upper',), ('lower',), ('strip_escapes',), ('utf8',), ('utf16',), ('ascii', True), ('ascii', False), ('buffers',), ('hash',), ('hash64',)]
    if latin(s): o.append(('hashc',))
    o += [('at', i) for i in range(n)] + [('strip_edges', l, r) for l in (True, False) for r in (True, False)] + [('repeat', k) for k in (0, 1, 2, 3, 5)] + [(f, i) for f in ('left', 'right') for i in range(-1, n + 2)]
    o += [('substr', i, k) for i in range(-1, n + 2) for k in list(range(-1, n + 2)) + [1000000]] + [('substr_index', i, k) for i in range(-1, n + 2) for k in range(-1, n + 3)] + [('insert', i, 'xy') for i in range(-1, n + 2)]
    o += [(f, k, '-') for f in ('lpad', 'rpad') for k in (0, n, n + 1, n + 3)] + [('pad_decimals', k) for k in (-1, 0, 1, 3)] + [('pad_zeros', k) for k in (0, 1, 3, 5)]
    return o
def multi(s, ks): return [('findmk', ks, f) for f in range(-1, len(s) + 1)]
def name(s): return [('camel', True), ('camel', False), ('capitalize',), ('valid_id',), ('make_id',), ('node_name',), ('valid_file',)]
def esc(s): return [('c_escape',), ('c_multi',), ('json',), ('xml', True), ('xml', False), ('http',), ('uri',), ('percent',), ('prop_enc',), ('c_unescape',), ('xml_un',)]
def path(s, t):
    o = [('abs_path',), ('file',), ('extension',), ('basename',), ('simplify',), ('clean_end',), ('ensure_end',), ('prev_dir',), ('plus_file', t), ('append_path', t)] + ([('append_pathc', t)] if latin(t) else [])
    if s[:2] not in ('//', '\\\\'): o.append(('base_dir',))
    return o
def num(s): return [('valid_int',), ('valid_uint',), ('valid_hex', True), ('valid_hex', False), ('valid_bool',), ('valid_id',)] + ([('valid_float',)] if vfloat(s) and not s.endswith(('e', 'e+', 'e-')) else [])
def vfloat(s): return 'e' not in s or s.rstrip('0123456789')[-1:] not in 'e+-' or s[-1:].isdigit()
def rnd(r, al, lo, hi): return ''.join(r.choice(al) for _ in range(r.randint(lo, hi)))
AL = 'abAB01 ./_-"\'\t\nzZéÉαΑяЯ日😀'
def rand_queries(r, count):
    out = []
    for _ in range(count):
        al = r.choice([AL, 'ab', 'aA', 'ab.', 'abc1', 'éÉαΑx', 'a 1\t'])
        s = rnd(r, al, 0, r.choice([3, 6, 12, 30])); k = r.choice([rnd(r, al, 0, 3), s[(i := r.randint(0, len(s))):i + r.randint(0, 4)]])
        qs = search(r, s, k, False) + shape(s)
        w = ''.join(r.choice('*?') if r.random() < .4 else ch for ch in s)[:8]
        qs += [('match', w), ('matchn', w.upper() if r.random() < .5 else w)] + esc(s) + name(s)
        ks = [x for x in (rnd(r, al, 1, 2) for _ in range(r.randint(1, 3)))]
        qs += multi(s, ks)
        out.append(Qs(s, *r.sample(qs, min(len(qs), 60))))
    return out
def numbers(r, count):
    out = []
    B = ['0', '1', '9', '10', '255', '2147483647', '2147483648', '2147483649', '4294967295', '9223372036854775807', '9223372036854775806', '9223372036854775808', '9223372036854775809', '9223372036854775800', '9999999999999999999', '18446744073709551615', '92233720368547758070', '00012', '007']
    for _ in range(count):
        d = r.choice(B) if r.random() < .5 else str(r.randrange(10 ** r.randint(1, 19)))
        s = ('-' if r.random() < .4 else '') + d
        qs = [('to_int',), ('to_int64',), ('to_ints',)] + num(s)
        if s[0] != '-': qs.append(('to_bool',))
        out.append(Qs(s, *qs)); out.append(Qs(s + '.' + str(r.randint(0, 99)), ('to_int',), ('to_int64',), ('to_ints',), ('to_double',), ('valid_float',), ('valid_int',)))
        v = int(s)
        if -2 ** 63 <= v < 2 ** 63:
            b = r.choice([2, 3, 8, 10, 10, 16, 36]); cap = r.random() < .5; c = str(v)
            out.append(Qs('', ('num64', c, b, cap), ('num_chars', c)))
        if 0 <= v < 2 ** 64: out.append(Qs('', ('numu64', str(v), r.choice([2, 8, 10, 16, 36]), r.random() < .5)))
        h = r.choice(['7fffffff', '80000000', '80000001', 'ffffffff', '7fffffffffffffff', '8000000000000000', '8000000000000001', 'FFffFFffFFffFFff', '0', 'a', 'g', '1g', '', '10', 'abcdef']) if r.random() < .6 else '%x' % r.randrange(16 ** r.randint(1, 16))
        p = r.random() < .5; hs = ('-' if r.random() < .4 else '') + (r.choice(['0x', '0X']) if p else '') + h
        out.append(Qs(hs, ('hex', p), ('hex64', p), ('hex', not p), ('hex64', not p), *num(hs)))
        b = r.choice(['1' * 63, '1' + '0' * 63, '1' + '0' * 62 + '1', '0', '1', '2', '']) if r.random() < .4 else bin(r.randrange(2 ** r.randint(1, 63)))[2:]
        bs = ('-' if r.random() < .4 else '') + ('0b' if p else '') + b
        out.append(Qs(bs, ('bin64', p), ('bin64', not p)))
        f = r.choice(['', '-', '+']) + r.choice(['', rnd(r, '0123456789', 1, 3), rnd(r, '0123456789', 1, 25)]) + r.choice(['', '.', '.' + rnd(r, '0123456789', 1, 20), '.5']) + r.choice(['', '', 'e%d' % r.randint(-20, 20), 'e+%d' % r.randint(0, 9)])
        if any(c.isdigit() for c in f.split('e')[0]): out.append(Qs(r.choice(['', '', ' ', '\t\n']) + f, ('to_double',)))
        f2 = rnd(r, '0123456789.e+-', 0, 7) if r.random() < .5 else f
        if vfloat(f2) and not f2.endswith(('e', 'e+', 'e-')): out.append(Qs(f2, ('valid_float',), ('valid_int',), ('valid_uint',)))
        x = r.choice([r.uniform(-10, 10), r.randint(-1000, 1000) / 8, r.randint(-5, 5), r.uniform(-1, 1) * 10 ** r.randint(-9, 18), 0.5, -0.125, 1e-7, 123456789.125, 2 ** 31, -2 ** 31 - .5, 4e9]) + 0.0
        out.append(Qs('', *[('num', x, d) for d in r.sample([-1, 0, 1, 2, 3, 6, 9, 10, 14], 4)] + [('num_real', x), ('num_sci', x)]))
        if r.random() < .1: out.append(Qs('', ('num', r.choice([1e300, -1.5e260, 1.7e308]), r.choice([-1, 0, 3]))))
        sep = r.choice([',', ';', '::', ' ']); parts = [r.choice(['', '0', '-%d' % r.randint(1, 99), str(r.randint(0, 9999)), str(r.randint(0, 99)) + '.5']) for _ in range(r.randint(0, 5))]; j = sep.join(parts)
        mk = ''.join(p + r.choice([sep, '|']) for p in parts) + '3'
        out.append(Qs(j, *[(f, sep, e) for f in ('split_ints', 'split_floats') for e in (True, False)]))
        out.append(Qs(mk, *[(f, [sep, '|'], e) for f in ('split_ints_mk', 'split_floats_mk') for e in (True, False)]))
        out.append(Qs(r.choice(['true', 'false', 'TRUE', 'False', 'tru', 'yes', '0', '1', '2', '', 'falsee', 'fals', 'truE', '10', '00']), ('to_bool',), ('valid_bool',)))
        ip = '.'.join(str(r.choice([0, 1, 127, 255, 256, 999, 10])) if r.random() < .9 else r.choice(['', 'a', '01']) for _ in range(r.choice([4, 4, 4, 3, 5])))
        out.append(Qs(ip, ('valid_ip',)))
        out.append(Qs('', ('hexbuf', ''.join(chr(r.randint(1, 255)) for _ in range(r.randint(0, 6))))))
    return out
def paths(r, count):
    out = []
    for _ in range(count):
        s = rnd(r, ['a', 'b', '.', '..', '/', '/', '\\', 'c.d', ':', 'é'], 0, 7); t = rnd(r, ['a', '/', '\\', '.', 'b.x', 'é', '\u012f', '..'], 0, 4)
        if r.random() < .25: s = r.choice(['res://', 'user://', 'local://', 'C:/', 'C:\\', 'http://']) + s
        qs = path(s, t)
        if r.random() < .5:
            P = lambda: '/' + '/'.join(rnd(r, 'abc', 1, 2) for _ in range(r.randint(1, 4)))
            x, y = P(), P()
            if r.random() < .5: y = x + P()
            if r.random() < .3: x, y = y, x
            x += r.choice(['', '/']); out.append(Qs(x, ('path_to', y), ('path_to', y + '/'), ('path_to', x), ('path_to_file', y + '/f.txt')))
        out.append(Qs(s, *qs))
        url = r.choice(['http://', 'HTTPS://', '', 'ftp://']) + r.choice(['', 'u@', 'u:p@']) + r.choice(['Host.org', 'h', '[::1]', '[2001:DB8::2]', '', 'a:b', '[::1', '127.0.0.1']) + r.choice(['', ':80', ':0', ':65535', ':65536', ':', ':8a', ':99999999999']) + r.choice(['', '/', '/p/q', '/P?x=1:2', '/a://b'])
        if not (url.count('://') > 1 and not url.lower().startswith(('http', 'ftp'))): out.append(Qs(url, ('url',)))
        e = rnd(r, ['a', 'é', '日', '\\', '\n', '"', "'", '&', '<', '>', '%', '%4', '%41', '+', ' ', '&amp;', '&lt', '&lt;', '&#65;', '&#x41;', '&#xe9;', '&#;', '\\n', '\\\\', '\\q', 'n', '?', '\t'], 0, 7)
        out.append(Qs(e, *esc(e)))
        pc = rnd(r, ['a', '%41', '%e9%81%93', '%7e', '%C3%A9', 'z', '4', 'é'], 0, 5)
        out.append(Qs(pc, ('percent_un',)))
        n = rnd(r, ['a', 'B', '1', '_', 'Node', 'XML', ' ', '2D', 'é', '/', ':', '%'], 0, 6)
        out.append(Qs(n, *name(n)))
        w = ' '.join(rnd(r, 'abc', 1, 5) for _ in range(r.randint(1, 7)))
        if r.random() < .3: w = w.replace(' ', '\n', 1)
        out.append(Qs(w, *[('wrap', r.randint(1, 12)) for _ in range(3)]))
    return out
def rand(r, n):
    st = dict(a='', b='', c=''); ev = []; regs = 'abc'
    W = lambda: rnd(r, 'abcéα日😀Z', 0, 5)
    L = lambda: rnd(r, 'abcéZ~', 0, 5)
    def do(op, d, *a): ev.append(E('S.' + op, d, *a))
    for _ in range(n):
        d = r.choice(regs); x = r.choice(regs); y = r.choice(regs); s = st[d]; k = r.choice(['set', 'setc', 'setw', 'setn', 'copy', 'copy', 'copy', 'plus', 'plusc', 'append', 'append', 'appendc', 'appendw', 'appendu', 'appendch', 'put', 'putp', 'cut', 'clear', 'remove', 'erase', 'utf8', 'keep'])
        if len(s) > 40: k = 'cut'
        if k == 'set': w = W(); do(k, d, T(w)); st[d] = w
        elif k == 'setc': w = L(); do(k, d, T(w), r.random() < .5); st[d] = w
        elif k == 'setw': w = W(); do(k, d, T(w), r.random() < .5); st[d] = w
        elif k == 'setn': m = r.randint(0, 3); w = L() if m == 0 else W(); c = r.randint(0, 7); do(k, d, T(w), c, m); st[d] = w[:c]
        elif k == 'copy': do(k, d, x, r.random() < .5); st[d] = st[x]
        elif k == 'plus' and len(st[x] + st[y]) < 40: do(k, d, x, y); st[d] = st[x] + st[y]
        elif k == 'plusc' and len(st[x]) < 40:
            b = r.random() < .5; w = L(); do(k, d, x, T(w), b); st[d] = w + st[x] if b else st[x] + w
        elif k == 'append': do(k, d, x); st[d] = s + st[x]
        elif k == 'appendc': w = L(); do(k, d, T(w)); st[d] = s + w
        elif k in ('appendw', 'appendu'): w = W(); do(k, d, T(w)); st[d] = s + w
        elif k == 'appendch': w = r.choice('aé日😀'); do(k, d, ord(w)); st[d] = s + w
        elif k in ('put', 'putp') and s:
            i = r.randrange(len(s)); w = r.choice('xé日'); do(k, d, i, ord(w), *([r.random() < .5] if k == 'put' else [])); st[d] = s[:i] + w + s[i + 1:]
        elif k == 'cut' and s: i = r.randint(0, min(len(s), 8)); do(k, d, i); st[d] = s[:i]
        elif k == 'clear': do(k, d); st[d] = ''
        elif k == 'remove' and s: i = r.randrange(len(s)); do(k, d, i); st[d] = s[:i] + s[i + 1:]
        elif k == 'erase': i = r.randint(0, len(s) + 1); m = r.randint(0, 4); do(k, d, i, m); st[d] = s[:i] + s[i + m:]
        elif k == 'utf8': w = W(); do(k, d, list(w.encode()), r.random() < .5); st[d] = w
        elif k == 'keep':
            # results that may share storage with their source
            i = r.randint(0, 3); f = r.choice([('substr', 0, len(st[x])), ('substr', i, -1), ('left', len(st[x])), ('left', i), ('right', 0), ('strip_edges', True, True), ('trim_prefix', T('a')), ('insert', i, T('q')), ('replace', T('a'), T('bb')), ('upper',), ('lower',), ('repeat', 1), ('lpad', 2, T(' ')), ('unquote',)])
            do(k, d, x, *f); w = st[x]
            st[d] = {'substr': lambda: w if f[1:] == (0, len(w)) else w[i:], 'left': lambda: w[:f[1]], 'right': lambda: w, 'strip_edges': lambda: w, 'trim_prefix': lambda: w[1:] if w[:1] == 'a' else w, 'insert': lambda: w[:i] + 'q' + w[i:], 'replace': lambda: w.replace('a', 'bb'), 'upper': lambda: w, 'lower': lambda: w, 'repeat': lambda: w, 'lpad': lambda: ' ' * (2 - len(w)) + w, 'unquote': lambda: w}[f[0]]()
    return ev
def small(r, al, n, m, frac, per=None):
    out = []
    for s in allstr(al, n):
        out.append(Qs(s, *shape(s)))
        for k in allstr(al, m):
            if r.random() < frac:
                q = search(r, s, k)
                out.append(Qs(s, *(q if not per or len(q) <= per else r.sample(q, per))))
    return out

U8 = [[65], [97], [13], [10], [0xc3, 0xa9], [0xe6, 0x97, 0xa5], [0xf0, 0x9f, 0x98, 0x80], [0xef, 0xbb, 0xbf], [0x80], [0xbf], [0xc0, 0x80], [0xc1, 0xbf], [0xc2], [0xe0, 0x80, 0x80], [0xe0, 0x9f, 0xbf], [0xe0, 0xa0, 0x80], [0xed, 0xa0, 0x80], [0xed, 0xbf, 0xbf], [0xed, 0x9f, 0xbf], [0xee, 0x80, 0x80], [0xf0, 0x80, 0x80, 0x80], [0xf0, 0x8f, 0xbf, 0xbf], [0xf0, 0x90, 0x80, 0x80], [0xf4, 0x8f, 0xbf, 0xbf], [0xf4, 0x90, 0x80, 0x80], [0xf7, 0xbf, 0xbf, 0xbf], [0xf8, 0x87, 0xbf, 0xbf, 0xbf], [0xf8, 0x88, 0x80, 0x80, 0x80], [0xfb, 0xbf, 0xbf, 0xbf, 0xbf], [0xfc, 0x83, 0xbf, 0xbf, 0xbf, 0xbf], [0xfc, 0x84, 0x80, 0x80, 0x80, 0x80], [0xfc, 0x85, 0xbf, 0xbf, 0xbf, 0xbe], [0xfe], [0xff], [0xe6, 0x97], [0xf0, 0x9f], [0xe6, 65], [0xf0, 0x9f, 0xc3, 0xa9], [0], [0x7f]]
U16 = [0x41, 0x61, 0xe9, 0x65e5, 0xd7ff, 0xd800, 0xd83d, 0xdbff, 0xdc00, 0xde00, 0xdfff, 0xe000, 0xfeff, 0xfffe, 0xffff, 0, 0x3dd8, 0x00de, 0xd8]
CPS = [0, 1, 0x7f, 0x80, 0x7ff, 0x800, 0xd7ff, 0xd800, 0xdfff, 0xe000, 0xffff, 0x10000, 0x10ffff, 0x110000, 0x1fffff, 0x200000, 0x3ffffff, 0x4000000, 0x38d7ea0]
def decoding(r, count):
    out = []
    for _ in range(count):
        ev = [E('S.set', 'a', [r.choice(CPS[1:]) for _ in range(r.randint(0, 5))]), E('Q', 'utf', 'a'), E('Q', 'valid_string', 'a')]
        for _ in range(3):
            b = sum((r.choice(U8) for _ in range(r.randint(0, 5))), [])
            if r.random() < .2: b = [0xef, 0xbb, 0xbf] + b
            if r.random() < .2: b = b[:r.randint(0, len(b))]
            if r.random() < .2: b = [r.randint(0, 255) for _ in range(r.randint(0, 6))]
            ev.append(E('S.parse8', 'b', b, r.choice([-1, -1, len(b), r.randint(0, len(b))]), r.random() < .4))
        for _ in range(3):
            u = [r.choice(U16) for _ in range(r.randint(0, 5))]
            if r.random() < .3: u = [r.choice([0xfeff, 0xfffe])] + u
            ev.append(E('S.parse16', 'c', u, r.choice([-1, -1, len(u), r.randint(0, len(u))])))
        out.append(ev)
        lines = [rnd(r, ['\t', ' '], 0, 3) + rnd(r, 'ab \t', 0, 3) for _ in range(r.randint(1, 5))]
        if r.random() < .6: lines = [lines[0][:len(lines[0]) - len(lines[0].lstrip())] + l if r.random() < .7 else l for l in lines]
        t = '\n'.join(lines); out.append(Qs(t, ('dedent',), ('indent', '\t')))
        z = rnd(r, '0159.-', 1, 5)
        if any(x.isdigit() for x in z) or not z.strip('.-') == '': out.append(Qs(z, ('is_numeric',)))
        x, y = (r.choice(['res://', 'user://', 'C:/', 'D:/', '/', 'a/', '', 'C:\\']) + r.choice(['', 'a', 'a/b', 'b', 'a/b/c', 'a\\c']) + r.choice(['', '', '/']) for _ in 'xy')
        if r.random() < .4: y = x + r.choice(['/d', 'd', '/d/e/'])
        if '//' not in x[7:] + y[7:]: out.append(Qs(x, ('path_to', y)))
        k = r.choice('/\\'); p = k + k + 'host' + k + 'share' + k + k.join(rnd(r, 'ab.', 1, 2) for _ in range(r.randint(0, 3)))
        out.append(Qs(p, ('base_dir',), ('file',)))
        e = rnd(r, ['\\a', '\\b', '\\f', '\\n', '\\r', '\\t', '\\v', "\\'", '\\"', '\\?', '\\\\', '\\', 'a', 'x', '\x07', '\x0b', '\x0c'], 0, 6)
        out.append(Qs(e, ('c_unescape',), ('c_escape',), ('json',)))
    return out
