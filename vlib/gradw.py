"""G01: histories of weight updates against specs/GW.tla"""
from core import *
from traindata import line
from kernels import three
BUILDS = three('gw')
def check(prop, tier, cov):
    q = tier == 'quick'
    exe = buildall(BUILDS)
    for n, c in [('a', dict(RS={1}, CS={2}, TYS={0, 3, 1} if q else {0, 1, 2, 3, 4}, WM=3, GM=2)), ('b', dict(RS={1}, CS={2} if q else {2, 3}, TYS={7} if q else {5, 6, 7, 8}, WM=3, GM=2))]:
        model_check(cov, 'GWGen', n, dict(c, RANDOM=False, MAXLEN=0), inv=('LawsInv',), workers=8)
    sc = generate('GWGen', 'gen', dict(RS={1, 2, 3}, CS={1, 2, 3}, TYS=set(range(9)), WM=3, GM=3, RANDOM=True), 250 if q else 3000, 60, SEED*100)
    lines = [line(e) for x in sc for e in x]
    used = collections.Counter(e['op'] for x in sc for e in x)
    ty = collections.Counter(e['ty'] for x in sc for e in x if e['op'] == 'reset')
    if len(ty) < 9: raise Broken('an optimizer was never generated')
    cov.traces += len(sc)*len(exe); cov.samples.append({'behaviour': lines[:8]})
    cov.notes.append('operation counts %s, optimizers %s' % (json.dumps(used), json.dumps(ty)))
    for tn, x in exe: replay(cov, prop, tn, x, lines, 'GWTrace', {})
