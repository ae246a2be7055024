"""N03: dropout and penalized activations inside networks against specs/Layers.tla"""
from core import *
from kernels import three, line
from layers import single
BUILDS = [(n.replace('nets', 'drop'), dict(d, defs=list(d.get('defs', [])) + ['-DDROP'])) for n, d in three('nets')]
def check(prop, tier, cov):
    q = tier == 'quick'
    exe = buildall(BUILDS)
    model_check(cov, 'DropGen', 'deriv', dict(TS=set(range(11)), WS={1, 2}, NS={1, 2, 3}, RANDOM=False, MAXLEN=0, COUNT=300 if q else 5000), inv=('Deriv',), workers=1)
    for pi, (n, c, num, ln) in enumerate([('s', dict(WS={1, 2}, NS={1, 2, 3, 5}), 70, 40), ('l', dict(WS={1, 2, 3}, NS={1, 6, 8}), 30, 40)]):
        sc = generate('DropGen', n, dict(c, TS=set(range(11)), RANDOM=True, COUNT=0), num if q else num*15, ln, SEED*100+pi, simdepth=ln*3)
        lines = [line(e) for s in sc for e in s]
        used = collections.Counter(e['op'] for s in sc for e in s); tops = collections.Counter(e['t'] for s in sc for e in s if e['op'] == 'reset')
        if len(tops) < 11: raise Broken('%s: some networks were never generated: %s' % (n, tops))
        cov.traces += len(sc)*len(exe); cov.samples.append({'behaviour': lines[:6]})
        cov.notes.append('%s: operation counts %s, networks %s' % (n, json.dumps(used), json.dumps(tops)))
        for tn, x in exe: replay(cov, prop, '%s_%s' % (n, tn), x, [single(l) for l in lines] if tn.endswith('_f') else lines, 'DropTrace', dict(Rel=2000 if tn.endswith('_f') else 100000))
