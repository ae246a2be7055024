"""I01: loading of binary and JSON data files against specs/Files.tla"""
from core import *
from kernels import line
W = dict(src='files.cpp', libs=['-Wl,--wrap=malloc,--wrap=free'])
BUILDS = [('files', W), ('files_f', dict(W, defs=['-DREALT=float']))]
def check(prop, tier, cov):
    q = tier == 'quick'
    exe = buildall(BUILDS)
    vs = set(range(13))
    model_check(cov, 'FilesGen', 'mc', dict(DS={1, 2} if q else {1, 2, 3}, VS=vs, RANDOM=False, MAXLEN=0), inv=('Laws',), workers=8)
    for pi, (n, ds, num, ln) in enumerate([('s', {1, 2, 3, 4}, 200, 40), ('l', {1, 5, 17, 40}, 6, 20)]):
        sc = generate('FilesGen', n, dict(DS=ds, VS=vs, RANDOM=True), num if q else num*20, ln, SEED*100+pi, simdepth=ln*2)
        lines = [line(e) for s in sc for e in s]
        used = collections.Counter(e['op'] for s in sc for e in s)
        if {'bin', 'json'} - set(used): raise Broken('operations never generated')
        cov.traces += len(sc)*len(exe); cov.samples.append({'behaviour': [x[:200] for x in lines[:6]]})
        cov.notes.append('%s: operation counts %s' % (n, json.dumps(used)))
        for tn, x in exe: replay(cov, prop, '%s_%s' % (n, tn), x, lines, 'FilesTrace', {})
