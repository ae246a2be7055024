from core import *
def line(e): return ' '.join([e['op']] + ['%s=%s' % (k, '[' + ','.join(map(str, v)) + ']' if isinstance(v, list) else int(v)) for k, v in e.items() if k != 'op'])
TB = [('td_d', dict(src='td.cpp')), ('td_f', dict(src='td.cpp', defs=['-DXTT=float', '-DYTT=float']))]
NB = [('tdnorm', dict(src='tdnorm.cpp')), ('tdnorm_f', dict(src='tdnorm.cpp', defs=['-DXTT=float', '-DSTT=float'])), ('tdnorm_m', dict(src='tdnorm.cpp', defs=['-DXTT=float', '-DSTT=double']))]
BUILDS = TB + NB
STOR = {'loose', 'absorb', 'extract', 'reply', 'dupe', 'move', 'absorb_td', 'clear', 'eq', 'transp', 'transpx', 'transpy'}
RUN = {'init_inf', 'init_tr', 'isinf', 'istr', 'deinit', 'epoch', 'batch', 'walk', 'next'}
G = {   # generation profiles
 'D01': [('run', dict(OPS=RUN | {'loose', 'absorb', 'orders'}, NS={1, 2, 3, 4, 5, 7}, WS={1, 2}, SIZES={0, 1, 2, 3, 4, 5, 6, 8}, BADS={0}, KS={1}, SL={1, 2}, LAY={0, 1})),
         ('tf', dict(OPS=RUN | {'loose', 'absorb'}, NS={1, 3, 4, 5}, WS={1, 2}, SIZES={0, 1, 2, 3, 4, 6, 9}, BADS={0}, KS={1, 2, 3}, SL={1, 3}, LAY={0, 1}))],
 'D02': [('stor', dict(OPS=STOR | {'init_tr', 'epoch', 'batch', 'deinit'}, NS={1, 2, 3, 4}, WS={1, 2}, SIZES={0, 1, 2}, BADS=set(range(0, 19)), KS={1}, SL={1, 2}, LAY={0, 1})),
         ('stor2', dict(OPS=STOR, NS={1, 3}, WS={1, 3}, SIZES={0}, BADS={0}, KS={1}, SL={1, 2}, LAY={0, 1}))],
}
def MC(q): return {
 'D01': [('run', dict(OPS={'loose', 'absorb', 'init_inf', 'init_tr', 'epoch', 'batch', 'walk', 'next'}, NS={1, 3} if q else {1, 2, 3, 5}, WS={1}, SIZES={0, 1, 2} if q else {0, 1, 2, 3}, BADS={0}, KS={1}, SL={1}, LAY={0})),
         ('tf', dict(OPS={'loose', 'absorb', 'init_inf', 'init_tr', 'epoch', 'batch', 'walk', 'next'}, NS={2} if q else {2, 3}, WS={1}, SIZES={0, 2} if q else {0, 2, 4}, BADS={0}, KS={2}, SL={1, 3}, LAY={0}))],
 'D02': [('stor', dict(OPS=STOR - {'transp', 'absorb_td'}, NS={1} if q else {1, 2}, WS={1}, SIZES={0}, BADS={0, 2, 7} if q else {0, 2, 7, 14}, KS={1}, SL={1, 2}, LAY={0}))],
}
LOW = {'D01': {'deinit', 'isinf', 'istr', 'orders', 'loose', 'absorb', 'init_inf'}, 'D02': {'clear', 'move', 'absorb_td', 'deinit', 'eq', 'extract'}}
def gen(prop, n, c, num, seed): return generate('TrainDataGen', '%s_%s' % (prop, n), dict(c, RANDOM=True, LOW=LOW[prop]), num, 40, seed, simdepth=250)
def check(prop, tier, cov):
    q = tier == 'quick'
    if prop == 'D03': return check_norm(q, cov)
    exe = buildall(TB)
    for n, c in MC(q)[prop]:
        model_check(cov, 'TrainDataGen', prop + n, dict(c, RANDOM=False, MAXLEN=0, LOW=set()), workers=8, inv=('InvE', 'InvW', 'InvI'))
    for pi, (n, c) in enumerate(G[prop]):
        sc = gen(prop, n, c, 300 if q else 3000, SEED*100+pi)
        lines = [line(e) for s in sc for e in s]
        used = collections.Counter(e['op'] for s in sc for e in s)
        miss = set(c['OPS']) - set(used)
        if miss: raise Broken('operations never generated: %s' % miss)
        cov.traces += len(sc)*len(exe); cov.samples.append({'behaviour': [line(e) for e in sc[0][:12]]})
        cov.notes.append('%s: generated operation counts %s' % (n, json.dumps(used, sort_keys=True)))
        for tn, x in exe: replay(cov, prop, '%s_%s' % (n, tn), x, lines, 'TrainDataTrace', {})

NC = dict(JS={1, 2, 3}, WS={1, 2, 3}, SDS={0, 1, 2, 4}, MUS={0, 1, 2}, TS={1, 2, 4}, CS={0, 1, 2}, RTS={0, 1}, N2S={1, 2, 5}, BSS={1, 2, 3}, BCS={1, 2})
def check_norm(q, cov):
    exe = buildall(NB)
    mc = dict(JS={1}, WS={1, 2} if q else {1, 2, 3}, SDS={0, 1, 2}, MUS={1}, TS={1, 2}, CS={0, 2}, RTS={0, 1}, N2S={1}, BSS={2}, BCS={1})
    model_check(cov, 'NormGen', 'mc', dict(mc, RANDOM=False, MAXLEN=0), inv=('Raws',), view='View', workers=8)
    sc = generate('NormGen', 'gen', dict(NC, RANDOM=True), 200 if q else 2000, 20, SEED*100, simdepth=120)
    lines = [line(e) for s in sc for e in s]
    cov.traces += len(sc)*len(exe); cov.samples.append({'behaviour': [line(e) for e in sc[0][:6]]})
    cov.notes.append('generated operation counts %s' % json.dumps(collections.Counter(e['op'] for s in sc for e in s)))
    for tn, x in exe: replay(cov, 'D03', tn, x, lines, 'NormTrace', {})
