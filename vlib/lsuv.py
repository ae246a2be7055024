"""W02: data-dependent weight initialization against specs/Lsuv.tla"""
from core import *
from kernels import line
BUILDS = [('lsuv', dict(src='lsuv.cpp')), ('lsuv_f', dict(src='lsuv.cpp', defs=['-DREALT=float']))]
def check(prop, tier, cov):
    q = tier == 'quick'
    exe = buildall(BUILDS)
    model_check(cov, 'LsuvGen', 'mc', dict(NETS={0}, RANDOM=False, MAXLEN=0), inv=('Laws',), workers=1)
    for pi, (n, nets, num, ln) in enumerate([('l', {0, 5}, 8, 40), ('n', {1, 2, 3, 4}, 10, 40)]):
        sc = generate('LsuvGen', n, dict(NETS=nets, RANDOM=True), num if q else num*80, ln, SEED*100+pi, simdepth=ln*2)
        lines = [line(e) for s in sc for e in s]
        cov.traces += len(sc)*len(exe); cov.samples.append({'behaviour': lines[:4]})
        for tn, x in exe: replay(cov, prop, '%s_%s' % (n, tn), x, lines, 'LsuvTrace', dict(Slack=30 if tn.endswith('_f') else 2))
