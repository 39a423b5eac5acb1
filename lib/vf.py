# Common machinery of all checks: build the driver from /repo, generate scripts, run them on the real
# code, and let TLC decide whether each recorded trace is a behaviour of the TLA+ specification.
import os, sys, json, hashlib, subprocess, tempfile, shutil, time, glob, re, random, atexit
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VF_REPO', '/repo')
CACHE = os.path.join(VERIF, '.cache')
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
CORES = os.cpu_count() or 8
HOOK_DEF = 'MLPP_VERIFY_HOOKS'

_scratch = None
def scratch():
    global _scratch
    if _scratch is None:
        base = os.environ.get('VF_SCRATCH') or tempfile.gettempdir()
        _scratch = tempfile.mkdtemp(prefix='vf-', dir=base)
        if not os.environ.get('VF_KEEP'):
            atexit.register(lambda: shutil.rmtree(_scratch, ignore_errors=True))
    return _scratch

class CheckError(Exception):
    pass

def log(*a):
    print(*a, file=sys.stderr, flush=True)

def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode()); h.update(b'\0')
    return h.hexdigest()

def rd(f):
    with open(f, 'rb') as fh:
        return fh.read()

# ---------------------------------------------------------------- build
PLATFORM = ['platform/sfw.cpp', 'platform/image.cpp']
def core_srcs():
    return sorted(os.path.relpath(f, REPO) for f in glob.glob(REPO + '/core/*.cpp'))
def module_srcs():
    return sorted(os.path.relpath(f, REPO) for f in glob.glob(REPO + '/modules/*/*.cpp'))

def build(ops, srcs, defs=(), san='address', float_real=False):
    """ops: harness op files; srcs: 'sfw' | 'core' | 'all'. Returns the driver path."""
    files = list(PLATFORM)
    if srcs in ('core', 'all'):
        files += [f for f in core_srcs() if srcs == 'all' or not f.endswith('/data.cpp')]
    if srcs == 'all':
        files += module_srcs()
    hdrs = sorted(glob.glob(REPO + '/core/*.h') + glob.glob(REPO + '/modules/*/*.h') + glob.glob(REPO + '/platform/*.h'))
    hsum = sha(*[os.path.relpath(h, REPO).encode() + b'\0' + rd(h) for h in hdrs])
    common = ['-DUSING_SFW', '-I' + REPO + '/platform', '-I' + REPO, '-g0', '-w', '-pipe', '-fno-strict-aliasing', '-D' + HOOK_DEF]
    if not float_real:
        common.append('-DREAL_T_IS_DOUBLE')
    if san:
        common.append('-fsanitize=' + san)
    common += list(defs)
    jobs = []
    os.makedirs(CACHE + '/obj', exist_ok=True)
    for f in files:
        opt = ['-std=gnu++14', '-O0' if f.endswith('sfw.cpp') else '-O1']
        jobs.append((os.path.join(REPO, f), common + opt))
    hh = sha(rd(VERIF + '/harness/drv.h'), *[rd(x) for x in sorted(glob.glob(VERIF + '/harness/*.h'))])
    for f in ['drv.cpp'] + list(ops):
        jobs.append((os.path.join(VERIF, 'harness', f), common + ['-std=gnu++17', '-O0', '-I' + VERIF + '/harness', '-D_H=' + hh[:8]]))
    objs = [None] * len(jobs)
    def one(i):
        src, fl = jobs[i]
        key = sha(hsum, src, rd(src), ' '.join(fl))[:32]
        o = CACHE + '/obj/' + key + '.o'
        if not os.path.exists(o):
            t = o + '.%d.%d.tmp' % (os.getpid(), i)
            p = subprocess.run(['g++'] + fl + ['-c', src, '-o', t], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if p.returncode:
                raise CheckError('compile failed: %s\n%s' % (src, p.stdout.decode(errors='replace')[-4000:]))
            os.rename(t, o)
        objs[i] = o
    # largest first
    order = sorted(range(len(jobs)), key=lambda i: -os.path.getsize(jobs[i][0]))
    with ThreadPoolExecutor(CORES) as ex:
        list(ex.map(one, order))
    exe = CACHE + '/drv-' + sha(*objs, san or '')[:24]
    if not os.path.exists(exe):
        t = exe + '.%d.tmp' % os.getpid()
        p = subprocess.run(['g++'] + (['-fsanitize=' + san] if san else []) + objs + ['-o', t, '-lpthread', '-ldl', '-lm'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode:
            raise CheckError('link failed\n' + p.stdout.decode(errors='replace')[-4000:])
        os.rename(t, exe)
    return exe

def build_java():
    src = VERIF + '/java/VOverrides.java'
    d = CACHE + '/java-' + sha(rd(src))[:16]
    if not os.path.exists(d + '/VOverrides.class'):
        t = d + '.%d' % os.getpid()
        os.makedirs(t, exist_ok=True)
        p = subprocess.run(['javac', '-nowarn', '-cp', JARS, '-d', t, src], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode:
            raise CheckError('javac failed\n' + p.stdout.decode())
        try:
            os.rename(t, d)
        except OSError:
            shutil.rmtree(t, ignore_errors=True)
    return d

# ---------------------------------------------------------------- TLC
def tlc(module_text_or_name, cfg, props=None, workers=None, extra=(), timeout=800, heap='6g', dirs=()):
    """Run TLC on spec module (name in /verif/spec, or (name, text)) with the cfg text."""
    jd = build_java()
    w = tempfile.mkdtemp(prefix='tlc-', dir=scratch())
    for f in glob.glob(VERIF + '/spec/*.tla'):
        os.symlink(f, os.path.join(w, os.path.basename(f)))
    if isinstance(module_text_or_name, tuple):
        name, text = module_text_or_name
        with open(os.path.join(w, name + '.tla'), 'w') as f:
            f.write(text)
    else:
        name = module_text_or_name
    with open(os.path.join(w, name + '.cfg'), 'w') as f:
        f.write(cfg)
    cmd = ['java', '-XX:+UseParallelGC', '-Xss32m', '-Xmx' + heap, '-cp', JARS + ':' + jd,
           '-Dtlc2.overrides.TLCOverrides=tlc2.overrides.TLCOverrides:VOverrides', '-Djava.io.tmpdir=' + w]
    cmd += ['-D%s=%s' % kv for kv in (props or {}).items()]
    cmd += ['tlc2.TLC', '-workers', str(workers or CORES), '-metadir', w + '/states', '-nowarning', '-config', name + '.cfg'] + list(extra) + [name + '.tla']
    try:
        p = subprocess.run(cmd, cwd=w, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        out = p.stdout.decode(errors='replace'); rc = p.returncode
    except subprocess.TimeoutExpired as e:
        out = (e.stdout or b'').decode(errors='replace') + '\nTIMEOUT'; rc = -1
    if not os.environ.get('VF_KEEP'):
        shutil.rmtree(w, ignore_errors=True)
    m = re.findall(r'(\d+) states generated, (\d+) distinct states found', out)
    gen, dist = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
    return dict(rc=rc, out=out, generated=gen, distinct=dist)

TRACE_TMPL = '''---- MODULE Tr ----
EXTENDS %(mod)s, TLC
TraceFile == EnvStr("trace")
T == LoadLines(TraceFile)
VARIABLES s, l, st, bad
Init == /\\ s \\in 1..Len(T)
        /\\ l = 0
        /\\ st = InitState
        /\\ bad = FALSE
(* one recorded call of the implementation is one step of the specification *)
Step(e) == IF "crash" \\in DOMAIN e THEN FALSE ELSE Conforms(st, e)
Next == /\\ ~bad
        /\\ l < Len(T[s].ev)
        /\\ s' = s /\\ l' = l + 1
        /\\ LET e == T[s].ev[l + 1] IN
             IF Step(e) THEN st' = After(st, e) /\\ bad' = FALSE
             ELSE /\\ bad' = TRUE /\\ st' = st
                  /\\ EmitLine(EnvStr("rejects"), [s |-> s, l |-> l + 1, want |-> IF EnvInt("explain", 0) = 1 THEN Expected(st, e) ELSE "?"])
View == <<s, l, bad>>
====
'''
TRACE_CFG = 'INIT Init\nNEXT Next\nVIEW View\nCHECK_DEADLOCK FALSE\n'

def validate(mod, tracefile, nlines, nevents, explain=False, workers=None, timeout=800):
    """TLC decides whether every recorded script is a behaviour of module mod. Returns list of rejects."""
    rej = tracefile + '.rej'
    if os.path.exists(rej):
        os.unlink(rej)
    r = tlc(('Tr', TRACE_TMPL % dict(mod=mod)), TRACE_CFG, props=dict(trace=tracefile, rejects=rej, explain=1 if explain else 0), workers=workers, timeout=timeout)
    if 'Model checking completed. No error has been found.' not in r['out']:
        raise CheckError('TLC failed on %s\n%s' % (tracefile, r['out'][-3500:]))
    rejects = []
    if os.path.exists(rej):
        seen = set()
        for ln in open(rej):
            x = json.loads(ln)
            if (x['s'], x['l']) not in seen:
                seen.add((x['s'], x['l'])); rejects.append(x)
    if not rejects and r['distinct'] != nlines + nevents:
        raise CheckError('TLC explored %d states, expected %d\n%s' % (r['distinct'], nlines + nevents, r['out'][-1500:]))
    r['rejects'] = sorted(rejects, key=lambda x: (x['s'], x['l']))
    return r

# ---------------------------------------------------------------- running the implementation
def run_driver(exe, scripts, tag='t', cpu=20, env=None):
    """scripts: list of {'id','ev'}; returns trace file path, list of parsed traces"""
    d = tempfile.mkdtemp(prefix='run-', dir=scratch())
    n = max(1, min(CORES, (len(scripts) + 49) // 50))
    parts = [scripts[i::n] for i in range(n)]
    procs = []
    for i, part in enumerate(parts):
        sd = os.path.join(d, 'w%d' % i); os.mkdir(sd)
        sf = os.path.join(d, 's%d.ndjson' % i); tf = os.path.join(d, 't%d.ndjson' % i)
        with open(sf, 'w') as f:
            for s in part:
                f.write(json.dumps(s) + '\n')
        e = dict(os.environ); e.update(env or {})
        procs.append((subprocess.Popen([exe, sf, tf, sd, str(cpu)], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, env=e), tf, sd))
    out = os.path.join(d, 'trace.ndjson')
    traces = []
    with open(out, 'w') as fo:
        for p, tf, sd in procs:
            try:
                _, err = p.communicate(timeout=850)
            except subprocess.TimeoutExpired:
                p.kill(); raise CheckError('driver timeout')
            if p.returncode != 0:
                raise CheckError('driver failed: rc=%d %s' % (p.returncode, err.decode(errors='replace')[-2000:] + open(sd + '/stderr.log', errors='replace').read()[-2000:] if os.path.exists(sd + '/stderr.log') else ''))
            for ln in open(tf):
                traces.append(ln.rstrip('\n'))
                fo.write(ln)
    return out, traces, d

def write_replay(prop, info):
    os.makedirs(VERIF + '/replays', exist_ok=True)
    p = VERIF + '/replays/%s-%s.json' % (prop, sha(json.dumps(info, sort_keys=True))[:10])
    with open(p, 'w') as f:
        json.dump(info, f, indent=1)
    return p

class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.rng = random.Random('%s-%d' % (prop, seed))
        self.t0 = time.time()
        self.states = 0; self.transitions = 0; self.traces = 0; self.events = 0
        self.samples = []; self.violations = []; self.parts = {}; self.assumptions = []
        self.ops = {}
    @property
    def thorough(self):
        return self.tier == 'thorough'
    def n(self, quick, thorough):
        return thorough if self.thorough else quick
    # design-level model checking
    def model(self, module, cfg, props=None, timeout=600, name=None, workers=None, extra=()):
        r = tlc(module, cfg, props=props, timeout=timeout, workers=workers, extra=extra)
        if 'No error has been found' not in r['out'] and 'The number of states generated' not in r['out']:
            raise CheckError('model checking of the specification failed: %s\n%s' % (module if isinstance(module, str) else module[0], r['out'][-3000:]))
        self.states += r['distinct']; self.transitions += r['generated']
        self.parts[name or (module if isinstance(module, str) else module[0])] = dict(distinct=r['distinct'], generated=r['generated'])
        return r
    def gen(self, module, cfg, props=None, timeout=600, name=None):
        """model-check the design and collect the scripts it emits (one per transition)"""
        f = os.path.join(scratch(), 'gen-%d.ndjson' % len(self.parts))
        p = dict(props or {}); p['emit'] = f
        self.model(module, cfg, props=p, timeout=timeout, name=name)
        out = []; seen = set()
        for ln in open(f):
            if ln not in seen:
                seen.add(ln); out.append(json.loads(ln))
        out.sort(key=lambda x: json.dumps(x))
        return out
    def conform(self, exe, module, scripts, cpu=20, timeout=800, name=None, env=None, repeat=5):
        """run scripts on the implementation and have TLC validate every trace"""
        if not scripts:
            return
        scripts = [dict(id=i, ev=s['ev'] if isinstance(s, dict) else s) for i, s in enumerate(scripts)]
        t1 = time.time()
        tf, traces, d = run_driver(exe, scripts, cpu=cpu, env=env)
        t2 = time.time()
        parsed_ev = []
        for ln in traces:
            parsed_ev.append(ln)
        nev = 0
        for i, ln in enumerate(traces):
            t = json.loads(ln); nev += len(t['ev'])
            for e in t['ev']:
                self.ops[e['op']] = self.ops.get(e['op'], 0) + 1
            if i < 1 and len(self.samples) < 4:
                self.samples.append(dict(spec=module, trace=t['ev'][:4]))
        r = validate(module, tf, len(traces), nev, timeout=timeout)
        self.states += r['distinct']; self.transitions += r['generated']
        self.traces += len(traces); self.events += nev
        k = name or module
        q = self.parts.setdefault('conform:' + k, dict(traces=0, events=0))
        q['traces'] += len(traces); q['events'] += nev
        log('[%s] %s: %d traces, %d events, driver %.1fs, TLC %.1fs, rejects %d' % (self.prop, k, len(traces), nev, t2 - t1, time.time() - t2, len(r['rejects'])))
        if r['rejects']:
            self.rejected(exe, module, scripts, traces, r['rejects'], d, cpu, env)
        else:
            shutil.rmtree(d, ignore_errors=True)
    def rejected(self, exe, module, scripts, traces, rejects, d, cpu, env):
        shown = 0; sigs = set()
        for x in rejects:
            t = json.loads(traces[x['s'] - 1])
            e = t['ev'][x['l'] - 1]
            sig = e['op'] + ':' + ':'.join([x for x in e['a'] if isinstance(x, str) and len(x) > 2][:2])
            if sig in sigs:
                continue
            sigs.add(sig)
            # confirm: the same recorded trace is rejected again by a separate TLC run
            one = os.path.join(d, 'one.ndjson')
            with open(one, 'w') as f:
                f.write(traces[x['s'] - 1] + '\n')
            try:
                r2 = validate(module, one, 1, len(t['ev']), explain=True, workers=1)
                want = r2['rejects'][0]['want'] if r2['rejects'] else None
                again = bool(r2['rejects'])
            except CheckError:
                r2 = validate(module, one, 1, len(t['ev']), explain=False, workers=1)
                want = '?'; again = bool(r2['rejects'])
            if not again:
                log('rejection not repeated, ignored', x); continue
            sc = [s for s in scripts if s['id'] == t['id']]
            info = dict(property=self.prop, spec='spec/%s.tla' % module, event_index=x['l'], call=dict(op=e['op'], a=e['a']), observed=dict(r=e.get('r'), s=e.get('s')), expected=want, prefix=t['ev'][:x['l'] - 1][-6:], script=sc[0] if sc else None)
            self.violate(info)
            shown += 1
            if shown >= 8:
                break
    def violate(self, info):
        p = write_replay(self.prop, info)
        self.violations.append(info)
        log(json.dumps(info)[:1800])
        print('VIOLATION property=%s replay=%s' % (self.prop, p), flush=True)
    def finish(self, level='model_checking', extra=None):
        cov = dict(states=self.states, transitions=self.transitions, traces_validated_against_impl=self.traces,
                   events_validated=self.events, operations=dict(sorted(self.ops.items())), parts=self.parts, samples=self.samples or ['none'])
        cov.update(extra or {})
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=level, coverage=cov, assumptions=self.assumptions,
                  wall_s=round(time.time() - self.t0, 2), violations=len(self.violations))
        os.makedirs(VERIF + '/evidence', exist_ok=True)
        with open(VERIF + '/evidence/%s.json' % self.prop, 'w') as f:
            json.dump(ev, f, indent=1)
        log('[%s] %s in %.1fs' % (self.prop, 'VIOLATED' if self.violations else 'held', time.time() - self.t0))
        return 1 if self.violations else 0

GEN_CFG = 'INIT GInit\nNEXT GNext\nVIEW GView\nACTION_CONSTRAINT GEmit\nINVARIANT GInv\nCHECK_DEADLOCK FALSE\n'
GEN_TMPL = '''---- MODULE Gen ----
EXTENDS %(mod)s
%(defs)s
VARIABLES st, hist
GInit == st = InitState /\\ hist = <<>>
(* one call of the implementation, as the specification allows it *)
GNext == /\\ Len(hist) < EnvInt("depth", 4)
         /\\ \\E e \\in Cmds(st) :
              LET o == Do(st, e) IN
              /\\ st' = o.s
              /\\ hist' = Append(hist, e)
              /\\ Assert(StepOK(st, e, o), <<"design step property violated", st, e, o>>)
GView == st
GInv == StateOK(st)
GEmit == EmitLine(EnvStr("emit"), [ev |-> hist'])
====
'''
def gen_module(mod, defs=''):
    return ('Gen', GEN_TMPL % dict(mod=mod, defs=defs))
