"""W01: weight initialization schemes against specs/WInit.tla"""
from core import *
from kernels import line
W = dict(src='winit.cpp', libs=['-Wl,--wrap=LAPACKE_dgesvd,--wrap=LAPACKE_sgesvd'])
BUILDS = [('winit', W), ('winit_f', dict(W, defs=['-DREALT=float']))]
def check(prop, tier, cov):
    q = tier == 'quick'
    exe = buildall(BUILDS)
    model_check(cov, 'WInitGen', 'mc', dict(RS={1, 2, 3, 7}, PS={1, 2, 5, 8}, RANDOM=False, MAXLEN=0), inv=('Laws',), workers=1)
    for pi, (n, rs, ps, num, ln) in enumerate([('s', {1, 2, 3, 5, 10}, {1, 2, 4, 9, 16, 33}, 20, 60), ('m', {30, 64, 100}, {8, 16, 20, 40, 64}, 10, 60), ('l', {200, 500}, {16, 32, 64}, 4, 40)]):
        sc = generate('WInitGen', n, dict(RS=rs, PS=ps, RANDOM=True), num if q else num*20, ln, SEED*100+pi, simdepth=ln*2)
        lines = [line(e) for s in sc for e in s]
        used = collections.Counter(e['k'] for s in sc for e in s)
        if len(used) < 14: raise Broken('some schemes were never generated')
        cov.traces += len(sc)*len(exe); cov.samples.append({'behaviour': lines[:8]})
        cov.notes.append('%s: schemes %s' % (n, json.dumps(used)))
        for tn, x in exe: replay(cov, prop, '%s_%s' % (n, tn), x, lines, 'WInitTrace', {})
