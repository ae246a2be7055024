from core import *
TF = r'interface/threads/(workers|bgworkers|_sync_primitives)\.h$'
SUB = tuple((TF, a, b) for a, b in (
    (r'(::)?\bstd::thread\b', '::vp::thread'), (r'(::)?\bstd::atomic<', '::vp::atomic<'), (r'(::)?\bstd::atomic_bool\b', '::vp::atomic<bool>'),
    (r'(::)?\bstd::atomic_ptrdiff_t\b', '::vp::atomic<ptrdiff_t>'), (r'(::)?\bstd::chrono::(steady|system|high_resolution)_clock', '::vp::clock'),
    (r'(::)?\bstd::mutex\b', '::vp::mutex'), (r'(::)?\bstd::shared_(timed_)?mutex\b', '::vp::shared_mutex'), (r'(::)?\bstd::condition_variable(_any)?\b', '::vp::cond_var'),
    (r'(::)?\bstd::this_thread::yield\b', '::vp::yield'), (r'(::)?\bstd::this_thread::sleep_for\b', '::vp::sleep_for')))
BUILDS = [('pool_excl', dict(src='pool.cpp', defs=['-DMTX=mutex'], subst=SUB, asan=False)), ('pool_shared', dict(src='pool.cpp', defs=['-DMTX=shared_mutex'], subst=SUB, asan=False)),
          ('bg', dict(src='bg.cpp', subst=SUB, asan=False))]
def pools(): return [(n[5:], build(n, **k)) for n, k in BUILDS[:2]]
def bgs(): return [(n, build(n, **k)) for n, k in BUILDS[2:]]

def explore(cov, prop, tag, exe, lines, module, consts={}, timeout=400):
    """every script line is one workload under one (mode 0/1) or many (mode 2) schedules; executions are cut at
    'new' events, identical ones are merged, and all of them are checked against the specification"""
    wd = os.path.join(B, 'run', '%s_%s_%d' % (prop, tag, os.getpid())); shutil.rmtree(wd, ignore_errors=True); os.makedirs(wd)
    sf = os.path.join(wd, 'script'); open(sf, 'w').write('\n'.join(lines) + '\n')
    def once(k):
        tf = os.path.join(wd, 'raw'); rc, out, err = run([exe, sf, tf], timeout=timeout)
        runs = []; ln = 0; fin = 0
        for l in open(tf, errors='replace'):
            if not l.endswith('\n'): break
            if l.startswith('{"op":"next"'): fin += 1; ln += 1; continue
            if l.startswith('{"op":"new"'): runs.append((ln, [l]))
            elif runs: runs[-1][1].append(l)
        if rc != 0: (runs[-1][1] if runs else runs.append((0, [])) or runs[-1][1]).append(json.dumps({'op': 'crash', 'rc': rc}) + '\n')
        elif fin != len(lines) and not re.search('deadlock|steplimit|thread destroyed', ''.join(runs[-1][1][-1:])): raise Broken('%s: %d of %d workloads ran' % (tag, fin, len(lines)))
        seen = {}; 
        for ln, evs in runs: seen.setdefault(''.join(evs), ln)
        t2 = os.path.join(wd, 'trace'); idx = []
        with open(t2, 'w') as f:
            for s, ln in seen.items():
                n = s.count('\n'); f.write(s); idx.append((n, ln, s))
        bad = validate(cov, module, t2, consts)
        if bad is None: return None, len(runs), len(seen)
        a = 0
        for n, ln, s in idx:
            if bad <= a + n: return (ln, s, bad - a), len(runs), len(seen)
            a += n
    r, nr, ns = once(1)
    if r is None:
        cov.traces += nr; cov.notes.append('%s: %d executions of the real pool (%d distinct histories) accepted by %s' % (tag, nr, ns, module))
        log('[explore] %s: %d executions, %d distinct histories' % (tag, nr, ns)); shutil.rmtree(wd, ignore_errors=True); return
    r2, _, _ = once(2)
    if r2 is None: raise Broken('%s: rejection did not repeat' % tag)
    ln, s, k = r2
    txt = 'property %s %s: workload and schedule (harness line):\n%s\nhistory (event %d is not allowed by %s):\n%s' % (prop, tag, lines[ln] if ln < len(lines) else '?', k, module, '\n'.join(s.split('\n')[:k]))
    raise Violation('%s: history event %d %s not allowed by %s' % (tag, k, s.split('\n')[k-1][:120], module), save_replay(prop, tag + '.txt', txt))

def jobs_line(mode, seed, sticky, hw, jobs, script=()):
    return '%d %d %d %d %d %s %d %s' % (mode, seed, sticky, hw, len(jobs), ' '.join('%s %d %d' % j for j in jobs), len(script), ' '.join(map(str, script)))

def check(prop, tier, cov):
    q = tier == 'quick'; rnd = random.Random(SEED)
    if prop == 'T01':
        ex = pools()
        for n, j in ((1, 3), (2, 2), (3, 1), (3, 2)) if q else ((1, 4), (2, 3), (3, 2), (3, 3), (4, 2)):
            model_check(cov, 'Pool', 'n%dj%d' % (n, j), dict(N=n, JOBS=j, LOCKEDSTOP=True, KEEP=False, MAXLEN=0), inv=('AllDone', 'Once', 'Counter'), props=('Terminates',) if n < 3 else (), spec='Spec', deadlock=True)
        def rjobs(k): return [(rnd.choice(('run', 'reduce')), rnd.choice((0, 1, 2, 3, 4, 5, 7, 8, 50, 101)), rnd.randrange(0, 6)) for _ in range(k)]
        L = [jobs_line(0, SEED*100000+i, rnd.choice((0, 30, 60, 90, 97)), rnd.choice((1, 2, 2, 3, 4, 5)), rjobs(rnd.randrange(0, 5))) for i in range(4000 if q else 60000)]
        # schedules taken from behaviours of the protocol model
        for n in (1, 2, 3):
            sc = generate('Pool', 'gen%d' % n, dict(N=n, JOBS=2, LOCKEDSTOP=True, KEEP=True), 150 if q else 2000, 70, SEED*10+n, inv='EmitS')
            L += [jobs_line(1, i, 0, n+1, rjobs(2), [x for x in s for _ in (0, 1)]) for i, s in enumerate(sc)]
        L2 = []
        for hw, jobs in ((2, []), (3, []), (2, [('run', 3, 0)]), (2, [('run', 2, 0), ('reduce', 5, 0)]), (3, [('run', 3, 0)]), (3, [('reduce', 7, 2)])) + (() if q else ((4, [('run', 4, 0)]), (3, [('run', 4, 0), ('run', 2, 0)]), (3, [('reduce', 3, 0), ('run', 8, 2), ('reduce', 2, 0)]))):
            L2.append(jobs_line(2, 6000 if q else 150000, 2 if q else 3, hw, jobs))
        for tn, x in ex:
            explore(cov, prop, 'random_' + tn, x, L, 'PoolTrace'); explore(cov, prop, 'systematic_' + tn, x, L2, 'PoolTrace')
        cov.samples.append({'workload': L[0]})
    else:
        ex = bgs()
        for n, o in ((1, 3), (2, 3)) if q else ((1, 5), (2, 4), (3, 3)):
            model_check(cov, 'Bg', 'n%do%d' % (n, o), dict(N=n, OPS=o), inv=('TasksOnlyRegistered', 'ExecOnce', 'Exclusion'), props=('Terminates',) if n < 3 else (), spec='Spec', deadlock=True)
        def rops(k):
            o = []; nt = 0
            for _ in range(k):
                c = rnd.choice(('add', 'add', 'add', 'del', 'exec', 'idle', 'await', 'expect', 'tmo'))
                if c == 'add': nt += 1; o.append(('add', rnd.choice((0, 0, 1, 2, 5)), rnd.choice((0, 1, 3))))
                elif c == 'idle': o.append(('idle', rnd.choice((5, 50, 300)), 0))
                elif c == 'await':
                    if nt: o.append(('await', rnd.randrange(1, nt+1), 0))
                elif c in ('expect', 'tmo'): o.append((c, rnd.choice((1, 5)), 0))
                else: o.append((c, 0, 0))
            return o
        L = [jobs_line(0, SEED*100000+i, rnd.choice((0, 30, 60, 90)), rnd.choice((1, 2, 3)), rops(rnd.randrange(1, 9))) for i in range(2500 if q else 30000)]
        L2 = [jobs_line(2, 3000 if q else 60000, 2 if q else 3, n, o) for n, o in ((1, [('exec', 0, 0)]), (2, [('exec', 0, 0)]), (2, [('add', 0, 1), ('del', 0, 0)]), (2, [('add', 1, 1), ('exec', 0, 0), ('del', 0, 0)]), (2, [('add', 0, 0), ('add', 1, 1), ('exec', 0, 0)]))]
        for tn, x in ex:
            explore(cov, prop, 'random_' + tn, x, L, 'BgTrace'); explore(cov, prop, 'systematic_' + tn, x, L2, 'BgTrace')
        cov.samples.append({'workload': L[0]})
