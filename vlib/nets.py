"""N01: life cycle of training calls against specs/NNet.tla"""
from core import *
from traindata import line
from kernels import LOWTHR
BUILDS = [('nn', dict(src='nn.cpp')), ('nn_f', dict(src='nn.cpp', defs=['-DREALT=float'])), ('nn_low', dict(src='nn.cpp', subst=LOWTHR))]
def check(prop, tier, cov):
    q = tier == 'quick'
    exe = buildall(BUILDS)
    model_check(cov, 'NNetGen', 'x', dict(NS={1, 2, 3}, WS={1}, BSS={0, 1, 2}, EPS={1, 2} if q else {1, 2, 3}, RANDOM=False, MAXLEN=0), inv=('SafeInv', 'NoStuck'), workers=8)
    model_check(cov, 'NNetGen', 'l', dict(NS={1, 2}, WS={1}, BSS={0, 1}, EPS={1, 2}, RANDOM=False, MAXLEN=0), inv=('SafeInv', 'NoStuck'), props=('Ends',), spec='Fair', workers=8)
    sc = generate('NNetGen', 'gen', dict(NS=set(range(1, 10)), WS={1, 2, 3}, BSS={0, 1, 2, 3, 5}, EPS={1, 2, 3, 4}, RANDOM=True), 150 if q else 1500, 40, SEED*100)
    lines = [line(e) for x in sc for e in x]
    used = collections.Counter(e['op'] for x in sc for e in x)
    cov.traces += len(sc)*len(exe); cov.samples.append({'behaviour': lines[:8]})
    cov.notes.append('operation counts %s' % json.dumps(used))
    for tn, x in exe: replay(cov, prop, tn, x, lines, 'NNetTrace', {})
