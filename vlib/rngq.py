"""R01: random number generators against specs/Rng.tla"""
from core import *
from kernels import line
BUILDS = [('rng', dict(src='rng.cpp')), ('rng_f', dict(src='rng.cpp', defs=['-DREALT=float']))]
SEEDS = {1, 2, 3, 65535, 2000000000}
SMALL = {1, 2, 3, 7, 8, 30, 100, 250}
EDGE = {1000, 1001, 174, 175, 176, 2619, 2620, 2630, 2640, 2641, 4199, 4200, 4201, 1640, 1650, 2900, 2250, 2500}
BIG = {5003, 9000, 20000}
def check(prop, tier, cov):
    q = tier == 'quick'
    exe = buildall(BUILDS)
    for w, bnd in ((1, 3), (2, 3), (3, 4)) if q else ((1, 3), (2, 3), (3, 4), (4, 5), (3, 2)):
        model_check(cov, 'RngGen', 'mc%d' % w, dict(KINDS={0}, NS={0, 1, 2, 3, 4, 5, 7}, SEEDS={1, 2}, W=w, BND=bnd, RANDOM=False, MAXLEN=0), inv=('Laws',), workers=4)
    for pi, (n, ks, ns, num, ln) in enumerate([('s', {0, 1, 2}, SMALL, 40, 60), ('e', {0, 1, 2}, EDGE | {50}, 30, 40), ('b', {0, 1, 2}, BIG | {100}, 10, 40), ('a', {0, 1, 3}, BIG | SMALL, 8, 40)]):
        sc = generate('RngGen', n, dict(KINDS=ks, NS=ns, SEEDS=SEEDS, W=1, BND=1, RANDOM=True), num if q else num*15, ln, SEED*100+pi, simdepth=ln*2)
        lines = [line(e) for s in sc for e in s]
        used = collections.Counter('%s%s' % (e['op'], e.get('api', '')) for s in sc for e in s)
        cov.traces += len(sc)*len(exe); cov.samples.append({'behaviour': lines[:8]})
        cov.notes.append('%s: operation counts %s' % (n, json.dumps(used)))
        for tn, x in exe: replay(cov, prop, '%s_%s' % (n, tn), x, lines, 'RngTrace', {})
