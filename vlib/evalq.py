"""E01/E02: quality reports (evaluators, stdout observer) and confusion matrices against specs/Eval.tla"""
from core import *
from kernels import three, line
BUILDS = three('eval')
def check(prop, tier, cov):
    q = tier == 'quick'
    exe = buildall(BUILDS)
    cs = {0, 1, 2, 5, 60, 300, 3000, 90000}
    if prop == 'E01':
        model_check(cov, 'EvalGen', 'x', dict(WS={1, 2}, NS={1} if q else {1, 2}, MODE=0, CS=cs, RANDOM=False, MAXLEN=0), inv=('Laws',), workers=8)
        profs = [('s', dict(WS={1, 2, 3, 4}, NS={1, 2, 3, 4, 5, 7}, MODE=0), 60, 30), ('l', dict(WS={1, 2, 5, 9}, NS={1, 3, 17, 40}, MODE=0), 8, 20)]
    else:
        model_check(cov, 'EvalGen', 'c', dict(WS={1}, NS={1}, MODE=1, CS=cs, RANDOM=False, MAXLEN=0), inv=('CmLaws',), workers=8)
        profs = [('c', dict(WS={1}, NS={1}, MODE=1), 100, 60)]
    for pi, (n, c, num, ln) in enumerate(profs):
        sc = generate('EvalGen', n, dict(c, CS=cs, RANDOM=True), num if q else num*15, ln, SEED*100+pi, simdepth=ln*2)
        lines = [line(e) for s in sc for e in s]
        used = collections.Counter(e['op'] for s in sc for e in s)
        need = {'data', 'relabel', 'train'} if prop == 'E01' else {'upd', 'cnt', 'cclear', 'cadd', 'cset', 'cred', 'ceq', 'cmet'}
        if need - set(used): raise Broken('operations never generated: %s' % (need - set(used)))
        cov.traces += len(sc)*len(exe); cov.samples.append({'behaviour': [x[:200] for x in lines[:6]]})
        cov.notes.append('%s: operation counts %s' % (n, json.dumps(used)))
        for tn, x in exe: replay(cov, prop, '%s_%s' % (n, tn), x, lines, 'EvalTrace', {})
