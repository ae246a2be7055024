"""N02: values computed forwards and backwards through every kind of layer against specs/Layers.tla"""
from core import *
from kernels import three, line
BUILDS = three('nets')
def single(l): return re.sub(' lr=40 bs=. ep=.', ' lr=10 bs=0 ep=1', l)     # single precision cannot resolve several tiny steps
def check(prop, tier, cov):
    q = tier == 'quick'
    exe = buildall(BUILDS)
    model_check(cov, 'LayersGen', 'deriv', dict(TS=set(range(15)), WS={1, 2}, NS={1, 2, 3}, RANDOM=False, MAXLEN=0, COUNT=400 if q else 5000), inv=('Deriv',), workers=1)
    for pi, (n, c, num, ln) in enumerate([('s', dict(WS={1, 2}, NS={1, 2, 3, 5}), 150, 40), ('l', dict(WS={1, 2, 3}, NS={1, 6, 8}), 50, 40)]):
        sc = generate('LayersGen', n, dict(c, TS=set(range(15)), RANDOM=True, COUNT=0), num if q else num*15, ln, SEED*100+pi, simdepth=ln*3)
        lines = [line(e) for s in sc for e in s]
        used = collections.Counter(e['op'] for s in sc for e in s); tops = collections.Counter(e['t'] for s in sc for e in s if e['op'] == 'reset')
        if len(tops) < 15: raise Broken('%s: some networks were never generated: %s' % (n, tops))
        cov.traces += len(sc)*len(exe); cov.samples.append({'behaviour': lines[:6]})
        cov.notes.append('%s: operation counts %s, networks %s' % (n, json.dumps(used), json.dumps(tops)))
        for tn, x in exe: replay(cov, prop, '%s_%s' % (n, tn), x, [single(l) for l in lines] if tn.endswith('_f') else lines, 'LayersTrace', dict(Rel=2000 if tn.endswith('_f') else 100000))
