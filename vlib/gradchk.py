"""N04: the numeric gradient check against specs/GradCheck.tla"""
from core import *
from kernels import line
BUILDS = [('gradchk', dict(src='gradchk.cpp'))]
# a check that stops at the last weight of a wide output layer, then training of a narrower network under the same inspector
AFTER = [l for i in range(3) for l in (
    'gc net=0 a=4 b=4 c=4 y=2 rows=6 s=%d bs=3 obs=1 gs=[0,9,10] ss=[0,9,10] fa=4 fw=4 za=100 zw=100 ig=0 zc=0 fk=5 fl=2 fg=1 fn=1 fi=%d pre=0 ep=1 ign=[]' % (7*i+1, 4-i%2),
    'gct net=%d a=4 b=4 c=1 y=1 rows=3 s=%d bs=1 obs=1 gs=[0,1,10] ss=[0,1,10] fa=4 fw=4 za=100 zw=100 ig=0 zc=0 fk=0 fl=2 fg=1 fn=1 fi=4 pre=0 ep=1 ign=[]' % (i, 11*i))]
def check(prop, tier, cov):
    q = tier == 'quick'
    exe = buildall(BUILDS)
    model_check(cov, 'GradCheckGen', 'mc', dict(NETS={0}, RANDOM=False, MAXLEN=0), inv=('Laws',), workers=4)
    for pi, (n, nets, num, ln) in enumerate([('chain', {0, 1, 2, 6}, 20, 40), ('pack', {3, 4, 5, 7}, 20, 40)]):
        sc = generate('GradCheckGen', n, dict(NETS=nets, RANDOM=True), num if q else num*20, ln, SEED*100+pi, simdepth=ln*2)
        lines = [line(e) for s in sc for e in s]
        if pi == 0: lines += AFTER
        cov.traces += len(sc); cov.samples.append({'behaviour': lines[:4]})
        for tn, x in exe: replay(cov, prop, '%s_%s' % (n, tn), x, lines, 'GradCheckTrace', {})
