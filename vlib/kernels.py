"""mathematical kernels: algebraic laws of the specification exhausted by TLC; operand/kernel sequences generated by TLC
run through every form of each kernel and judged by the specification"""
from core import *
LOWTHR = [(r'_thr\.h$', r'= *\d{2,}[^;]*;', '= 12;')]
def line(e): return ' '.join([e['op']] + ['%s=%s' % (k, '[' + ','.join(map(str, v)) + ']' if isinstance(v, list) else int(v)) for k, v in e.items() if k != 'op'])
def three(n): return [(n, dict(src=n + '.cpp')), (n + '_f', dict(src=n + '.cpp', defs=['-DREALT=float'])), (n + '_low', dict(src=n + '.cpp', subst=LOWTHR))]
GROUPS = {
 'A01': dict(mod='KRed', h='math_red', mc=dict(RS={1, 2}, CS={1, 2}, VS={0, 1, 2}), mcT=dict(RS={1, 2, 3}, CS={1, 2}, VS={0, 1, 2}),
             gen=[('s', dict(RS={1, 2, 3, 4, 5, 6}, CS={1, 2, 3, 4, 5, 7, 9}, VS={0, 1, 2, 3}), 80, 26), ('l', dict(RS={1, 7, 17, 33}, CS={1, 5, 13, 21}, VS={0, 1, 2, 3}), 12, 26)]),
 'A02': dict(mod='KMov', h='math_mov', mc=dict(RS={1, 2, 3}, CS={1, 2}, VS={0, 1, 2}, KS={2}), mcT=dict(RS={1, 2, 3, 4}, CS={1, 2, 3}, VS={0, 1}, KS={2}),
             gen=[('s', dict(RS={1, 2, 3, 4, 5, 6}, CS={1, 2, 3, 4, 5, 7, 9}, VS={0, 1, 2, 3}, KS={2, 3, 4}), 80, 26), ('l', dict(RS={1, 7, 17, 33}, CS={1, 5, 13, 21}, VS={0, 1, 2, 3}, KS={2, 3, 5}), 12, 26)]),
 'A04': dict(mod='KEw', h='math_ew', mc=dict(RS={1, 2}, CS={1, 2}, VS={0, 1, 2}), mcT=dict(RS={1, 2, 3}, CS={1, 2}, VS={0, 1, 2}),
             gen=[('s', dict(RS={1, 2, 3, 4, 5, 6}, CS={1, 2, 3, 4, 5, 7}, VS={0, 1, 2, 3}), 80, 30), ('l', dict(RS={1, 7, 17, 33}, CS={1, 5, 13}, VS={0, 1, 2, 3}), 10, 30)]),
 'A05': dict(mod='KAct', h='math_act', mc=dict(RS={1}, CS={1, 2}, VS={0, 1, 2, 3, 4, 5, 6}), mcT=dict(RS={1, 2}, CS={1, 2}, VS={0, 1, 2, 3, 4, 6}),
             gen=[('s', dict(RS={1, 2, 3, 4, 5, 6}, CS={1, 2, 3, 4, 5, 7}, VS={0}), 80, 30), ('l', dict(RS={1, 7, 17, 33}, CS={1, 5, 13}, VS={0}), 12, 30)]),
 'A06': dict(mod='KOpt', h='math_opt', mc=dict(RS={1}, CS={1, 2}, VS=set(range(7))), mcT=dict(RS={1, 2}, CS={1, 2}, VS=set(range(5))),
             gen=[('s', dict(RS={1, 2, 3, 4, 5, 6}, CS={1, 2, 3, 4, 5, 7}, VS=set(range(8))), 60, 25), ('l', dict(RS={1, 7, 17, 33}, CS={1, 5, 13}, VS=set(range(8))), 10, 25)]),
}
BUILDS = [b for g in GROUPS.values() for b in three(g['h'])]
def check(prop, tier, cov):
    q = tier == 'quick'
    if prop == 'A03': return check_topk(prop, q, cov)
    g = GROUPS[prop]
    exe = buildall(three(g['h']))
    model_check(cov, g['mod'] + 'Gen', prop, dict(g['mc'] if q else g['mcT'], RANDOM=False, MAXLEN=0), workers=8, inv=('LawsInv',))
    for pi, (n, c, num, ln) in enumerate(g['gen']):
        sc = generate(g['mod'] + 'Gen', '%s_%s' % (prop, n), dict(c, RANDOM=True), num if q else num*10, ln, SEED*100+pi, simdepth=ln*8)
        lines = [line(e) for s in sc for e in s]
        used = collections.Counter(e['op'] for s in sc for e in s)
        cov.traces += len(sc)*len(exe); cov.samples.append({'behaviour': [line(e) for e in sc[0][:5]]})
        cov.notes.append('%s: generated operation counts %s' % (n, json.dumps(used, sort_keys=True)))
        for tn, x in exe: replay(cov, prop, '%s_%s' % (n, tn), x, lines, g['mod'] + 'Trace', {})

TB = [('topk', dict(src='topk.cpp')), ('topk_f', dict(src='topk.cpp', defs=['-DREALT=float']))]
BUILDS += TB
def check_topk(prop, q, cov):
    exe = buildall(TB)
    model_check(cov, 'TopKGen', 'mc', dict(RS={1, 2, 3}, CS={1}, VS={0, 1, 2}, KS={1, 2}, NBATCH=2 if q else 3, RANDOM=False, MAXLEN=0), workers=8, inv=('InvQ',))
    for pi, (n, c, num, ln) in enumerate([('s', dict(RS={1, 2, 3, 4, 6}, CS={1, 2, 3}, VS={0, 1, 2, 3, 4}, KS={1, 2, 3, 4}), 300, 14), ('l', dict(RS={1, 5, 9, 16}, CS={1, 9, 12}, VS=set(range(9)), KS={1, 3, 5}), 20, 10)]):
        sc = generate('TopKGen', 'topk' + n, dict(c, NBATCH=0, RANDOM=True), num if q else num*10, ln, SEED*100+pi, simdepth=ln*10)
        lines = [line(e) for s in sc for e in s]
        cov.traces += len(sc)*len(exe); cov.samples.append({'behaviour': [line(e) for e in sc[0][:5]]})
        cov.notes.append('%s: operation counts %s' % (n, json.dumps(collections.Counter(e['op'] for s in sc for e in s))))
        for tn, x in exe: replay(cov, prop, '%s_%s' % (n, tn), x, lines, 'TopKTrace', {})
