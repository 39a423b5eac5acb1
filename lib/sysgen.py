# Scripts for addresses, sockets and child processes.
from gen import E
def T(s): return [ord(c) for c in s]
V4B = [[127, 0, 0, 1], [10, 0, 0, 0], [10, 255, 255, 255], [9, 255, 255, 255], [11, 0, 0, 0], [172, 15, 255, 255], [172, 16, 0, 0], [172, 31, 255, 255], [172, 32, 0, 0], [192, 168, 0, 0], [192, 168, 255, 255], [192, 169, 0, 0], [192, 167, 255, 255], [127, 0, 0, 2], [0, 0, 0, 0], [255, 255, 255, 255], [169, 254, 1, 1]]
def b4(r): return r.choice(V4B) if r.random() < .6 else [r.randrange(256) for _ in range(4)]
def b16(r):
    k = r.random()
    if k < .15: return [0] * 15 + [r.choice([0, 1, 1, 2])]
    if k < .4: return [0] * 10 + [255, 255] + b4(r)
    if k < .5: return [0] * 12 + b4(r)
    if k < .55: return [0] * 10 + [255, 254] + b4(r)
    b = [r.choice([0, 0, r.randrange(256)]) for _ in range(16)]
    if r.random() < .5: b[0], b[1] = r.choice([(254, 192), (254, 255), (254, 128), (254, 191), (254, 127), (255, 128), (253, 200), (254, 64)])
    return b
def text6(r, b):
    g = [b[2 * i] * 256 + b[2 * i + 1] for i in range(8)]; h = [r.choice(['%x', '%04x', '%X'])% x for x in g]
    tail = None
    if r.random() < .25: tail = '.'.join(map(str, b[12:])); h = h[:6]
    z = [i for i in range(len(h)) if g[i] == 0]
    if z and r.random() < .7:
        i = r.choice(z); j = i
        while j + 1 < len(h) and g[j + 1] == 0 and r.random() < .9: j += 1
        if tail is not None and j == 5: return ':'.join(h[:i]) + '::' + tail
        return ':'.join(h[:i]) + '::' + ':'.join(h[j + 1:] + ([tail] if tail else []))
    return ':'.join(h + ([tail] if tail else []))
BAD4 = ['', '1.2.3', '1.2.3.4.5', '256.1.1.1', '1.2.3.a', '01.2.3.4', '1..2.3', ' 1.2.3.4', '1.2.3.4 ', '1.2.3.', '.1.2.3', '::1', 'localhost', '1.2.3.0x4', '-1.2.3.4', '1.2.3.1000', '1,2,3,4']
BAD6 = ['', ':', '1', '1:2:3:4:5:6:7', '1:2:3:4:5:6:7:8:9', '::1::2', '12345::', 'g::', ':1::', '1::2:', '1:2:3:4:5:6:7:1.2.3.4', '::1.2.3', '1.2.3.4', '::1.2.3.256', '1:2:3:4:5:6:7:8:', ':::', '::1%lo', '1.2.3.4::', '::1.2.3.4:5']
def addr(r):
    o = []; have = {}
    def port(): return r.choice([0, 1, 80, 255, 256, 8080, 65535, r.randrange(65536)])
    for _ in range(40):
        k = r.random(); i = r.randrange(8)
        if k < .1: v6 = r.random() < .5; o.append(E('a.port', i, port(), r.random() < .5, v6)); have[i] = 1
        elif k < .5 or not have:
            v6 = r.random() < .6
            if r.random() < .3: t = r.choice(BAD6 if v6 else BAD4)
            elif v6: t = text6(r, b16(r))
            else: t = '.'.join(map(str, b4(r)))
            if r.random() < .1 and t: q = r.randrange(len(t)); t = t[:q] + r.choice(':.0f ') + t[q + (r.random() < .5):]
            o.append(E('a.ip', i, T(t), port(), v6)); have[i] = 1
        elif k < .62: o.append(E('a.sock', i, b16(r) if r.random() < .5 else b4(r), port())); have[i] = 1
        else:
            i = r.choice(list(have))
            if k < .7: o.append(E('a.set6', i, b16(r) if r.random() < .5 else b4(r), port()))
            elif k < .78: o.append(E('a.setport', i, port()))
            elif k < .86: j = r.randrange(8); o.append(E('a.copy', i, j)) if j != i else None; have[j] = 1; o.append(E('a.get', j)) if j != i else None
            elif k < .93: j = r.choice(list(have)); o.append(E('a.assign', i, j)); o.append(E('a.get', j))
            elif len(have) > 1: o.append(E('a.drop', i)); del have[i]; i = r.choice(list(have))
        o.append(E('a.get', i))
    return o
def sock(r):
    o = [E('s.unset'), E('s.listen', 0), E('s.none', 0), E('s.fds')]; peer = {}; rx = {}; fin = {}; shut = {}; nxt = [1]
    def leave(x):
        p = peer.pop(x, None); fin.pop(x, 0); shut.pop(x, 0); rx.pop(x, 0)
        if p: peer[p] = 0; fin[p] = 1
    for _ in range(45):
        k = r.random(); live = list(peer)
        if k < .12 or not live:
            x, y = r.sample(range(1, 8), 2)
            if any(rx.get(z) for z in (x, y)): continue
            leave(x); leave(y); o.append(E('s.pair', 0, x, y)); peer[x] = y; peer[y] = x; rx[x] = rx[y] = 0; fin[x] = fin[y] = 0; shut[x] = shut[y] = 0
            continue
        x = r.choice(live); p = peer[x]
        if k < .42:
            b = [r.randrange(256) for _ in range(r.choice([1, 2, 7, 60]))]
            if p == 0 and not shut[x]: continue
            o.append(E('s.send', x, b))
            if not shut[x]: rx[p] += len(b)
        elif k < .72:
            n = r.choice([1, 3, 10, 200]); w = rx[x] > 0 or fin[x] == 1
            if rx[x] and r.random() < .5: n = 4000
            o.append(E('s.read', x, n, bool(w), rx[x])); rx[x] -= min(n, rx[x])
        elif k < .77:
            if p and not shut[x]: o.append(E('s.shut', x)); shut[x] = 1; fin[p] = 1
        elif k < .84:
            if rx[x] == 0: o.append(E(r.choice(['s.close', 's.del']), x)); leave(x)
        elif k < .89:
            f = [z for z in range(1, 8) if z not in peer]
            if f:
                y = r.choice(f); o.append(E('s.adopt', x, y)); peer[y] = peer.pop(x); rx[y] = rx.pop(x); fin[y] = fin.pop(x); shut[y] = shut.pop(x)
                if peer[y]: peer[peer[y]] = y
        elif k < .93: o.append(E('s.opt', x, r.choice(['delay', 'port', 'alive', 'addr', 'nb']), r.random() < .5))
        elif k < .95: o.append(E('s.inuse', 0))
        elif k < .97: o.append(E('s.refused'))
        else: o.append(E('s.none', 0))
        if r.random() < .3: o.append(E('s.fds'))
    return o + [E('s.fds')]
TXT = ['', 'a', 'hello world', '$HOME', '`date`', '"q"', "it's", 'a\\b', '\\', 'x;y', '*', '&&', '|cat', '(1)', "''", '"', '> /dev/null', 'é€', '!', '#', '$(id)', '~', 'tab\there', '%d', '-n', '\\n', "a'b\"c$d`e\\f"]
def proc(r):
    o = []; st = {}
    def lines(lo=0): return [T(''.join(r.choice(TXT) + r.choice(['', ' ']) for _ in range(r.randint(0, 3)))) for _ in range(r.randint(lo, 4))]
    def run(x, out, blk, err, mode, code, wait=False, file=False):
        err = err and code >= 0; l = lines(1 if wait else 0); md = ('f' if file else 'w' if wait else 'n') + ('k' if code < 0 else str(code))
        o.append(E('x.run', x, r.randrange(4), md, l, out, blk, err, r.random() < .3, r.random() < .5, code, wait, file)); return len(l) + err
    for _ in range(14):
        x = r.randrange(3); s = st.get(x); k = r.random(); code = r.choice([0, 0, 1, 3, 77, 255, -1]); err = r.random() < .5
        if s and s[0] == 'pipe':
            if k < .1: o.append(E('x.empty', x, True, True))
            elif k < .2: run(x, r.random() < .5, r.random() < .5, err, 'n', 0)
            elif k < .3 and s[1] == 0: o.append(E('x.stop', x)); st.pop(x)
            else:
                o.append(E('x.poll', x)); s[1] -= 1
                if s[1] < 0: st.pop(x)
            continue
        if k < .25: run(x, True, True, err, 'n', code)
        elif k < .45: n = run(x, True, False, err, 'n', code); st[x] = ['pipe', n]
        elif k < .55: run(x, False, True, False, 'f', code, file=True); o.append(E('x.file'))
        elif k < .68: run(x, False, False, False, 'f', code, file=True); o += [E('x.wait', x), E('x.file')] + ([E('x.wait', x)] if r.random() < .5 else []) + ([E('x.stop', x)] if r.random() < .6 else [])
        elif k < .78: run(x, False, False, False, 'w', 0, wait=True, file=False) if False else o.append(E('x.run', x, r.randrange(4), 'w0', [], False, False, False, False, r.random() < .5, 0, True, False)); o.extend([E('x.running', x), E('x.stop', x)])
        elif k < .84: o.append(E('x.missing', x, r.random() < .5))
        elif k < .88: o.append(E('x.empty', x, r.random() < .5, r.random() < .5))
        elif k < .92: o.append(E('x.stop', x))
        elif k < .95: o.append(E('x.poll', x))
        else: o.append(E('x.free', x)); st.pop(x, 0)
        if r.random() < .2: o.append(E('x.running', x))
    for x in list(st):
        if st[x][1] >= 0: o += [E('x.poll', x)] * (st[x][1] + 1)
    return o
def long(r, odd):  # characters across the end of a read buffer
    l = T('a' * odd + 'é' * (32767 + r.randrange(1, 900)))
    return [E('x.run', 0, 0, 'n0', [l, T('x')], True, True, False, False, False, 0, False, False)]
