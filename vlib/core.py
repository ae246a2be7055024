"""Shared machinery: porting+building harnesses from /repo's working tree, running TLC in its three
roles (exhaustive model checking, behaviour generation, trace validation), evidence, verdicts."""
import os, sys, re, json, time, subprocess, shutil, hashlib, collections, random

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
B = os.environ.get('VERIF_BUILD', os.path.join(V, '.build'))
SPECS = os.path.join(V, 'specs')
H = os.path.join(V, 'harness')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
JAR = '/opt/veriftools/tla/tla2tools.jar'

class Broken(Exception):
    """the machinery itself failed: no verdict"""
class Violation(Exception):
    def __init__(self, msg, replay): super().__init__(msg); self.msg = msg; self.replay = replay

def log(*a): print(*a, flush=True)

# ---------------------------------------------------------------- building
FLAGS = ('-std=c++17 -g -w -pthread -fno-strict-aliasing -fms-extensions -fms-compatibility '
         '-fms-compatibility-version=19 -fdelayed-template-parsing ' +
         ' '.join('-D__GCC_ATOMIC_%s_LOCK_FREE=2' % t for t in
                  'BOOL CHAR CHAR16_T CHAR32_T WCHAR_T SHORT INT LONG LLONG POINTER'.split()) +
         ' -D__GCC_ATOMIC_TEST_AND_SET_TRUEVAL=1 -D__cdecl=').split()
FIXES = os.path.join(H, 'port', 'fixes.json')

def port(dst):
    os.makedirs(dst, exist_ok=True)
    subprocess.run([sys.executable, os.path.join(H, 'port', 'port.py'), os.path.join(REPO, 'nntl'), os.path.join(dst, 'nntl')], check=True)
    shutil.copytree(os.path.join(H, 'port', '_extern'), os.path.join(dst, '_extern'), dirs_exist_ok=True)
    if os.path.exists(FIXES):
        by = collections.defaultdict(list)
        for f, pre, ins, post in json.load(open(FIXES)): by[f].append((pre, ins, post))
        for f, L in by.items():
            p = os.path.join(dst, f)
            if not os.path.exists(p): continue
            t = open(p, 'rb').read().decode('latin1'); o = t
            for pre, ins, post in L:
                t = t.replace(pre + post, pre + ins + post)
            if t != o: open(p, 'wb').write(t.encode('latin1'))

def build(name, src=None, defs=(), asan=True, opt='-O1', libs=(), learn=False, san=None, subst=()):
    """compile harness/<src> against a ported copy of /repo's current tree"""
    src = src or name + '.cpp'
    with _lock('build_' + name):
        return _build(name, src, defs, asan, opt, libs, learn, san, subst)

def buildall(L):
    """[(name, build kwargs)] -> [(name, executable)], built in parallel"""
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(8) as ex: return list(zip([n for n, _ in L], ex.map(lambda x: build(x[0], **x[1]), L)))

import fcntl, contextlib
@contextlib.contextmanager
def _lock(n):
    os.makedirs(B, exist_ok=True)
    with open(os.path.join(B, n + '.lock'), 'w') as f:
        fcntl.flock(f, fcntl.LOCK_EX)
        yield

def tree_hash():
    h = hashlib.sha256()
    for root in (os.path.join(REPO, 'nntl'), H):
        for d, ds, fs in os.walk(root):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(d, f); h.update(p.encode()); h.update(open(p, 'rb').read())
    return h.hexdigest()

def _build(name, src, defs, asan, opt, libs, learn, san, subst):
    d = os.path.join(B, name)
    key = hashlib.sha256(repr((tree_hash(), src, defs, asan, opt, libs, san, subst, FLAGS)).encode()).hexdigest()
    stamp = os.path.join(d, 'stamp')
    if os.path.exists(stamp) and open(stamp).read() == key and not learn: return os.path.join(d, name)
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    srcd = os.path.join(d, 'src')
    port(srcd)
    for fr, a, b in subst:
        for dd, _, fs in os.walk(srcd):
            for f in fs:
                p = os.path.join(dd, f)
                if re.search(fr, os.path.relpath(p, srcd)) and not os.path.islink(p):
                    t = open(p, 'rb').read().decode('latin1'); n = re.sub(a, b, t)
                    if n != t: open(p, 'wb').write(n.encode('latin1'))
    out = os.path.join(d, name)
    san = san if san is not None else (['-fsanitize=address', '-fno-omit-frame-pointer'] if asan else [])
    cmd = ['clang++-18'] + FLAGS + [opt] + san + list(defs) + ['-I' + srcd, '-I' + H, '-include', os.path.join(H, 'port', 'prelude.h'),
          '-U__OPTIMIZE__', '-fdiagnostics-absolute-paths', '-ferror-limit=0', os.path.join(H, src), '-o', out] + ['-lopenblas', '-llapacke'] + list(libs)
    learned = []
    for it in range(30):
        r = subprocess.run(cmd, capture_output=True, text=True, errors='replace')
        if r.returncode == 0:
            if learn and learned:
                old = json.load(open(FIXES)) if os.path.exists(FIXES) else []
                json.dump([list(x) for x in dict.fromkeys(tuple(x) for x in old + learned)], open(FIXES, 'w'), indent=0)
            open(stamp, 'w').write(key)
            return out
        fx = collections.defaultdict(set); other = []
        for l in r.stderr.split('\n'):
            m = re.match(r'(\S+?):(\d+):(\d+): error: (.*)', l)
            if not m:
                if re.search('error:|undefined reference', l): other.append(l)
                continue
            f, ln, c, msg = m.group(1), int(m.group(2)), int(m.group(3)), m.group(4)
            if "missing 'template' keyword" in msg:
                fx[f].add((ln, c, 'template ', re.search(r"template name '(\w+)'", msg).group(1)))
            elif "missing 'typename' prior to dependent" in msg: fx[f].add((ln, c, 'typename ', None))
            elif re.match("unexpected type name '", msg):
                L = open(f, 'rb').read().split(b'\n')[ln - 1].decode('latin1')
                q = re.search(r'(?:\w+(?:<[^<>]*>)?::)+$', L[:c - 1])
                if q and not L[:q.start()].endswith('typename '): fx[f].add((ln, q.start() + 1, 'typename ', None))
                else: other.append(l)
            else: other.append(l)
        n = 0
        for f, S in fx.items():
            t = open(f, 'rb').read().split(b'\n')
            for ln, c, ins, nm in sorted(S, reverse=True):
                L = t[ln - 1]
                if nm and not L[c - 1:].startswith(nm.encode()): continue
                t[ln - 1] = L[:c - 1] + ins.encode() + L[c - 1:]; n += 1
                pre, post = L[:c - 1][-30:].decode('latin1'), L[c - 1:].rstrip(b'\r')[:40].decode('latin1')
                if f.startswith(srcd + '/'): learned.append((os.path.relpath(f, srcd), pre, ins, post))
            open(f, 'wb').write(b'\n'.join(t))
        if not n:
            raise Broken('harness %s does not compile:\n%s' % (name, '\n'.join(x[:300] for x in other[:20])))
    raise Broken('harness %s: autofix did not converge' % name)

# ---------------------------------------------------------------- running
def run(cmd, timeout=600, env=None, stdin=None):
    e = dict(os.environ); e['ASAN_OPTIONS'] = 'detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:detect_stack_use_after_return=0:malloc_fill_byte=64:max_malloc_fill_size=1048576'
    e['OPENBLAS_NUM_THREADS'] = '1'
    e.update(env or {})
    try:
        r = subprocess.run(cmd, capture_output=True, text=True, errors='replace', timeout=timeout, env=e, input=stdin)
        return r.returncode, r.stdout, r.stderr
    except subprocess.TimeoutExpired as x:
        return -999, (x.stdout or b'').decode(errors='replace') if isinstance(x.stdout, bytes) else (x.stdout or ''), 'TIMEOUT'

def err(out):
    i = out.find('Error:')
    return out[i:i+900] if i >= 0 else out[-2500:]

def tlc(module, cfg, workers='1', extra=(), env=None, timeout=850, wd=None, heap='4g'):
    md = os.path.join(B, 'tlc', '%s_%s_%d_%d' % (module, os.path.basename(cfg).replace('.cfg', ''), os.getpid(), random.randrange(10**9)))
    os.makedirs(md, exist_ok=True)
    cmd = ['java', '-XX:+UseParallelGC', '-Xmx' + heap, '-Xss64m', '-Dtlc2.tool.fp.FPSet.impl=tlc2.tool.fp.OffHeapDiskFPSet',
           '-cp', JAR + ':' + ':'.join(CM), 'tlc2.TLC', '-config', cfg, '-metadir', md, '-noGenerateSpecTE', '-workers', str(workers)] + list(extra) + [os.path.join(SPECS, module + '.tla')]
    e = dict(os.environ); e.update(env or {})
    try:
        r = subprocess.run(cmd, capture_output=True, text=True, errors='replace', timeout=timeout, env=e, cwd=SPECS)
        return r.returncode, r.stdout + r.stderr
    except subprocess.TimeoutExpired as x:
        o = x.stdout or b''
        return -999, o.decode(errors='replace') if isinstance(o, bytes) else o
    finally:
        shutil.rmtree(md, ignore_errors=True)

def _cm():
    """CommunityModules jar(s) the installed tlc wrapper uses"""
    out = []
    for d in ('/opt/veriftools/tla',):
        for f in sorted(os.listdir(d)) if os.path.isdir(d) else []:
            if f.endswith('.jar') and f != 'tla2tools.jar': out.append(os.path.join(d, f))
    return out
CM = _cm()

def mk_cfg(name, consts, init='Init', next_='Next', spec=None, inv=(), post=None, view=None, constraint=None, action_constraint=None, props=(), deadlock=False, symmetry=None):
    p = os.path.join(B, 'cfg'); os.makedirs(p, exist_ok=True)
    f = os.path.join(p, name + '_%d.cfg' % os.getpid())
    L = []
    if spec: L.append('SPECIFICATION ' + spec)
    else: L += ['INIT ' + init, 'NEXT ' + next_]
    for k, v in consts.items(): L.append('CONSTANT %s %s' % (k, ('<- ' + v[2:]) if isinstance(v, str) and v.startswith('<-') else '= ' + tla(v)))
    for i in inv: L.append('INVARIANT ' + i)
    for i in props: L.append('PROPERTY ' + i)
    if post: L.append('POSTCONDITION ' + post)
    if view: L.append('VIEW ' + view)
    if constraint: L.append('CONSTRAINT ' + constraint)
    if action_constraint: L.append('ACTION_CONSTRAINT ' + action_constraint)
    if symmetry: L.append('SYMMETRY ' + symmetry)
    L.append('CHECK_DEADLOCK ' + ('TRUE' if deadlock else 'FALSE'))
    open(f, 'w').write('\n'.join(L) + '\n')
    return f

class Raw(str): pass
def tla(v):
    if isinstance(v, Raw): return str(v)
    if isinstance(v, bool): return 'TRUE' if v else 'FALSE'
    if isinstance(v, int): return str(v)
    if isinstance(v, (set, frozenset)): return '{' + ', '.join(tla(x) for x in sorted(v, key=str)) + '}'
    if isinstance(v, (list, tuple)): return '<<' + ', '.join(tla(x) for x in v) + '>>'
    return '"%s"' % v

class Cov:
    def __init__(self): self.states = 0; self.transitions = 0; self.traces = 0; self.samples = []; self.notes = []; self.events = 0

def model_check(cov, module, name, consts, inv=(), props=(), spec=None, workers=4, timeout=850, **kw):
    """exhaustive TLC run; any failure is a broken model (never a verdict about the code)"""
    cfg = mk_cfg('%s_%s' % (module, name), consts, inv=inv, props=props, spec=spec, **kw)
    t = time.time()
    rc, out = tlc(module, cfg, workers=workers, timeout=timeout)
    m = re.findall(r'(\d+) states generated, (\d+) distinct states found', out)
    if rc != 0 or 'Model checking completed. No error' not in out or not m:
        raise Broken('model %s/%s failed (rc %s):\n%s' % (module, name, rc, err(out)))
    cov.transitions += int(m[-1][0]); cov.states += int(m[-1][1])
    cov.notes.append('TLC exhausted %s/%s: %s distinct states, %s transitions' % (module, name, m[-1][1], m[-1][0]))
    log('[model] %s/%s: %s states generated, %s distinct (%.1fs)' % (module, name, m[-1][0], m[-1][1], time.time() - t))
    return out

def generate(module, name, consts, num, depth, seed, inv='Emit', timeout=300, simdepth=None, **kw):
    """behaviours of the specification, as lists of operation records"""
    c = dict(consts); c['MAXLEN'] = depth
    cfg = mk_cfg('%s_%s' % (module, name), c, inv=(inv,), **kw)
    rc, out = tlc(module, cfg, extra=['-simulate', 'num=%d' % num, '-depth', str(simdepth or depth), '-seed', str(seed), '-aril', '0'], timeout=timeout)
    S = []
    for l in out.split('\n'):
        if l.startswith('"SCRIPT '):
            S.append(json.loads(json.loads(l)[7:]))
    U = {}          # TLC evaluates Emit on every candidate last step: keep a few per behaviour
    for x in S: U.setdefault(json.dumps(x[:-1]), []).append(x)
    rnd = random.Random(seed); S = []
    for v in U.values(): S += [rnd.choice(v)]
    if not S or 'Error:' in out: raise Broken('no behaviours generated by %s/%s:\n%s' % (module, name, err(out)))
    return S

def paths(module, name, consts, inv='Emit', timeout=600, **kw):
    """one behaviour per distinct (state, last operation) found by breadth-first search: transition coverage"""
    cfg = mk_cfg('%s_%s' % (module, name), consts, inv=(inv,), **kw)
    rc, out = tlc(module, cfg, timeout=timeout)
    S = [json.loads(json.loads(l)[7:]) for l in out.split('\n') if l.startswith('"SCRIPT ')]
    if rc != 0 or not S: raise Broken('path generation %s/%s failed:\n%s' % (module, name, err(out)))
    return S

def validate(cov, module, trace, consts, timeout=850, heap='6g', env=None):
    """TLC decides whether the recorded execution is a behaviour of the specification.
    returns None if accepted, else the 1-based index of the first event that is not"""
    n = sum(1 for _ in open(trace))
    note = ('Note',) if 'Note ==' in open(os.path.join(V, 'specs', module + '.tla')).read() else ()
    cfg = mk_cfg(module + '_trace', consts, spec='Spec', post='Accepted', inv=note)
    e = {'TRACE': trace}; e.update(env or {})
    t = time.time()
    rc, out = tlc(module, cfg, env=e, timeout=timeout, heap=heap)
    m = re.search(r'"ACCEPTED (\d+)"', out); r = re.search(r'"REJECTED (\d+)"', out)
    if m and int(m.group(1)) == n:
        cov.events += n
        log('[trace] %s accepted %d events (%.1fs)' % (module, n, time.time() - t))
        return None
    if r and 'Assert' not in out and 'Error: Evaluating' not in out and 'exception' not in out.lower():
        return int(r.group(1))
    # an observation the specification cannot even evaluate (wrong arity, missing field...) is a rejection of that event
    ls = re.findall(r'^(?:/\\ )?l = (\d+)$', out, re.M)
    if rc != 124 and ls and re.search(r'Attempted to|outside (?:its |the )?domain|not in the domain|nonenumerable|Evaluating', out) and not re.search(r'StackOverflow|OutOfMemory|Parsing or semantic', out):
        return int(ls[-1])
    raise Broken('trace validation by %s failed:\n%s' % (module, err(out)))

def save_replay(prop, name, text):
    d = os.path.join(V, 'evidence', 'replay'); os.makedirs(d, exist_ok=True)
    p = os.path.join(d, '%s_%s' % (prop, name)); open(p, 'w').write(text); return p

def evidence(prop, tier, level, cov, wall, extra=None, violations=None, assumptions=None):
    d = os.path.join(V, 'evidence'); os.makedirs(d, exist_ok=True)
    c = {'states': cov.states, 'transitions': cov.transitions, 'traces_validated_against_impl': cov.traces,
         'events_validated': cov.events, 'samples': cov.samples[:5], 'notes': cov.notes}
    if extra: c.update(extra)
    r = {'property': prop, 'tier': tier, 'seed': SEED, 'level': level, 'coverage': c, 'wall_s': round(wall, 2)}
    if violations is not None: r['violations'] = violations
    if assumptions: r['assumptions'] = assumptions
    json.dump(r, open(os.path.join(d, prop + '.json'), 'w'), indent=1)

# ---------------------------------------------------------------- replaying generated behaviours into the code
def replay(cov, prop, tag, exe, lines, module, consts, timeout=300, env=None, crash_fields=None, heap='6g'):
    """lines: script lines for the harness. Harness: exe SCRIPT OUT writes one ndjson event per line.
    A run that dies appends a 'crash' event, which no specification accepts."""
    wd = os.path.join(B, 'run', '%s_%s_%d' % (prop, tag, os.getpid())); shutil.rmtree(wd, ignore_errors=True); os.makedirs(wd)
    sf = os.path.join(wd, 'script'); open(sf, 'w').write('\n'.join(lines) + '\n')
    def once(k):
        tf = os.path.join(wd, 'trace%d' % k)
        rc, out, err = run([exe, sf, tf], timeout=timeout, env=env)
        if rc == 3: raise Broken('harness rejected the script: ' + err[-500:])
        why = ''
        if rc != 0:
            el = [x for x in err.split('\n') if 'ERROR:' in x or 'runtime error' in x] or err.strip().split('\n')
            why = 'the process died: ' + el[0][:300] if rc != -999 else 'timed out (%ds)' % timeout
            body = open(tf, errors='replace').read() if os.path.exists(tf) else ''
            if body and not body.endswith('\n'): body = body[:body.rfind('\n') + 1]
            ev = {'op': 'crash', 'rc': rc}; ev.update(crash_fields or {})
            open(tf, 'w').write(body + json.dumps(ev) + '\n')
        bad = validate(cov, module, tf, consts, heap=heap, env=env)
        return bad, tf, why
    bad, tf, why = once(1)
    if bad is None:
        n = sum(1 for _ in open(tf))
        if n != len(lines): raise Broken('%s: %d events for %d script lines' % (tag, n, len(lines)))
        shutil.rmtree(wd, ignore_errors=True)
        return
    bad2, tf2, why2 = once(2)
    if bad2 is None: raise Broken('%s: rejection at event %d did not repeat' % (tag, bad))
    evs = open(tf2).read().split('\n')
    start = bad2
    while start > 1 and not lines[start - 1].startswith('reset'): start -= 1
    txt = 'property %s, %s: the code does something the specification %s does not allow\n%s\nscript (fails at the last line):\n%s\nrecorded event:\n%s\nprevious event:\n%s\n' % (
        prop, tag, module, why2, '\n'.join(lines[max(0, start - 1):bad2]), evs[bad2 - 1][:4000] if bad2 - 1 < len(evs) else '', evs[bad2 - 2][:4000] if bad2 >= 2 else '')
    raise Violation('%s: event %d (%s) not allowed by %s %s' % (tag, bad2, lines[bad2 - 1][:160] if bad2 <= len(lines) else '?', module, why2), save_replay(prop, tag + '.txt', txt))
