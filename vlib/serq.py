"""S01: saving and restoring networks against specs/Ser.tla"""
from core import *
from kernels import line
BUILDS = [('ser', dict(src='ser.cpp')), ('ser_f', dict(src='ser.cpp', defs=['-DREALT=float']))]
def check(prop, tier, cov):
    q = tier == 'quick'
    exe = buildall(BUILDS)
    model_check(cov, 'SerGen', 'mc', dict(AR={0}, RANDOM=False, MAXLEN=0), inv=('Laws',))
    for pi, (n, ar, num) in enumerate([('a', {0, 1, 2}, 22), ("b", {2, 3, 4}, 22)]):
        sc = generate('SerGen', n, dict(AR=ar, RANDOM=True), num if q else num*30, 60, SEED*100+pi, simdepth=130)
        lines = [line(e) for s in sc for e in s]
        cov.traces += len(sc)*len(exe); cov.samples.append({'behaviour': lines[:6]})
        for tn, x in exe: replay(cov, prop, '%s_%s' % (n, tn), x, lines, 'SerTrace', dict())
