from core import *
F = 'op s t a b em ho bir f val xb'.split()
def line(e): return ' '.join([e['op']] + [str(int(e[k])) for k in F[1:]] + [str(len(e['v']))] + [str(x) for x in e['v']])
RESET = 'reset 1 1 0 0 0 0 0 0 0 0 0'
BASE = dict(SLOTS=3, EXTB=2, EXTSIZE=24, MAXCELLS=36)
CREATE = {'ctor','ctor_sz','ctor_ds','ctor0','use_int','clear'}
RES = {'resize','resize_b','resize_sz','resize_ds','resize_ds_b','resize_nb','resize_like','resize_like_b','resize_ne'}
EXT = {'use_ext','ctor_ext','use_ext_ds','use_ext_ds2','use_ext_like','ctor_ext_like','use_ext_like_nb','use_mat','use_mat_nb','use_cols_nb','subm','subm_b'}
MOVE = {'mctor','massign','massign_b'}
COPY = {'clone_to','clone_from','clone_to_nb','copy_to','copy_skip_bias'}
WR = {'set','fill','ones','nans','nans_nb','zeros','fill_col','fill_row','from_arr'}
BIAS = {'set_biases','holey','emul','set_bir','biases_arr','biases_mat'}
DEF = {'deform','deform_rows','deform_cols','deform_bs','deform_bs_bias','deform_ss','deform_ds','deform_like','deform_like_nb','hide_col','rest_col','hide_n','rest_n','hide_bias','rest_bias','transp'}
Q = {'eq','is_bin','is_bin_strict','is_bin_strict_nb','no_nans','bias_ok'}
FAIL = {'f_ctor','f_ctor_sz','f_ctor_ds','f_resize','f_resize_b','f_resize_sz','f_resize_ds','f_resize_nb','f_use_int','f_clone_to','f_clone_from','f_clone_to_nb'}
ALL = CREATE|RES|EXT|MOVE|COPY|WR|BIAS|DEF|Q
# per property: the operations its behaviours are made of
PROFILES = {
 'M01': [CREATE|{'resize','resize_ds','resize_like'}|COPY|WR|Q|{'transp'}, ALL, CREATE|RES|COPY|FAIL|{'zeros','emul','set_bir','mctor','massign_b'}],
 'M02': [CREATE|RES|COPY|{'zeros','from_arr','ones','nans_nb','fill_row','fill_col'}|BIAS|Q|{'transp','hide_bias','rest_bias','deform_bs_bias','deform_ds'}, ALL],
 'M03': [CREATE|{'resize','resize_b','resize_ne'}|EXT|MOVE|COPY|{'set','fill','from_arr','zeros','deform'}, ALL],
 'M04': [CREATE|{'resize','resize_ne','use_ext','use_mat'}|DEF|{'set','from_arr','zeros','set_biases','eq'}, ALL],
}
SAFE = {'ctor','resize','clear','clone_to','clone_to_nb','copy_to','copy_skip_bias','mctor','zeros','ones','set_biases','transp','biases_mat','deform_bs_bias'}
def MC(q): return {   # exhaustive instances: (ops, constants, invariants)
 'M01': [('core', {'f_ctor','f_resize_b','ctor','resize','clone_to','copy_to','clone_to_nb','set','zeros','transp'}, dict(SLOTS=2, EXTB=1, EXTSIZE=1, MAXCELLS=4 if q else 6, DIMS={1,2} if not q else {1}, VALS={0,3}), ('InvType','InvNoLeak'))],
 'M02': [('bias', SAFE-{'transp','clear','ones'}, dict(SLOTS=2, EXTB=1, EXTSIZE=1, MAXCELLS=6, DIMS={1,2}, VALS={0}), ('InvType','InvNoLeak','InvBias')),
         ('bias3', {'ctor','clone_to','copy_to','clear','mctor','ones','zeros','set_biases'}, dict(SLOTS=2, EXTB=1, EXTSIZE=1, MAXCELLS=6, DIMS={1,2}, VALS={0}), ('InvType','InvNoLeak','InvBias'))],
 'M03': [('own', {'ctor','ctor0','clear','use_ext','use_mat','use_mat_nb','subm','mctor','massign','clone_to','resize','use_int'}, dict(SLOTS=3, EXTB=1, EXTSIZE=4, MAXCELLS=4, DIMS={1}, VALS={0}), ('InvType','InvNoLeak','InvUserMem'))],
 'M04': [('deform', DEF|{'ctor','resize_ne'}, dict(SLOTS=1, EXTB=1, EXTSIZE=1, MAXCELLS=12, DIMS={1,2,3}, VALS={0}), ('InvType','InvNoLeak','InvHide'))],
}
BUILDS = [('matrix_double', dict(src='matrix.cpp')), ('matrix_float', dict(src='matrix.cpp', defs=['-DVT=float']))]
def check(prop, tier, cov):
    q = tier == 'quick'
    exe = [(n[7:], x) for n, x in buildall(BUILDS)]
    for n, ops, c, inv in MC(q)[prop]:
        model_check(cov, 'MatrixGen', prop + n, dict(c, OPS=ops, RANDOM=False, MAXLEN=0), inv=inv, view='View1')
    for pi, ops in enumerate(PROFILES[prop]):
        sc = generate('MatrixGen', '%s_g%d' % (prop, pi), dict(BASE, OPS=ops, DIMS={1,2,3,4} if pi == 0 else {1,2,3}, VALS={0,1,2,3,7}, RANDOM=True), 400 if q else 4000, 25 if q else 30, SEED*100+pi)
        lines = []
        for s in sc: lines += [RESET] + [line(e) for e in s]
        lines.append(RESET)
        used = {}
        for s in sc:
            for e in s: used[e['op']] = used.get(e['op'], 0) + 1
        cov.samples.append({'behaviour': [e['op'] for e in sc[0]]}); cov.traces += len(sc)*len(exe)
        cov.notes.append('generated operation counts: ' + json.dumps(used, sort_keys=True))
        miss = set(ops) - set(used)
        if miss and pi == 0: raise Broken('operations never generated: %s' % miss)
        for tn, x in exe: replay(cov, prop, 'g%d_%s' % (pi, tn), x, lines, 'MatrixTrace', {k: BASE[k] for k in BASE})
