"""Proofs of the raw benchmark functions (units/p_raw.c): one per function and variant (any point / finite point / optimum)."""
from vf.core import Proof as _P, Bounded
from .common import VECTORS, SCALARS
VECTORS_ = SCALARS + VECTORS[:1]
RC = ['coco_vector_contains_nan/ct_vector_contains_nan', 'coco_is_nan/ct_is_nan', 'coco_is_inf/ct_is_inf']
INST = 'VF_INST(@1, @i);'


def up(inv, n='@2', lo='0', extra='', ghost=INST):
    return dict(assigns=', '.join(['@i'] + ['@{%s}' % v for v in extra.split()]), inv=['@i >= %s && @i <= %s' % (lo, n)] + list(inv), dec='%s - @i' % n, ghost=ghost, start=lo if lo != '0' else None)


def R(fn, loops, variants='AFO', opt=None, defines=(), src=None, lo=False, **k):
    src = src or 'f_%s.c' % fn
    f = 'f_%s_raw' % fn
    out = []
    for v in variants:
        d = ['SRC="%s"' % src, 'FN=' + f] + list(defines) + {'A': [], 'F': ['V_FIN'], 'O': ['V_OPT', 'V_OPT_LO=%d' % lo] + (['OPTX=' + opt] if opt else [])}[v]
        out.append(_P('raw_%s_%s' % (fn, {'A': 'any', 'F': 'finite', 'O': 'optimum'}[v]), 'p_raw.c', 'h_raw', f + '/ct_raw', list(RC), {src: {f: loops}} if loops else {}, defines=d, **k))
    return out


A = 'ACC(@{result})'
r1 = [up([A], extra='result')]
RAW = []
RAW += R('sphere', r1)
RAW += R('bent_cigar', [up([A, '@{condition} == 1.0e6'], lo='1', extra='result')])
RAW += R('discus', [up([A], lo='1', extra='result')])
RAW += R('ellipsoid', [up([A], lo='1', extra='result')], defines=['DATA=f_ellipsoid_data_t', 'DOK=(d->conditioning >= 1 && d->conditioning <= 1e7)', 'DINIT='])
RAW += R('attractive_sector', r1, defines=['DATA=f_attractive_sector_data_t', 'DINIT=d->xopt = VF_ARR(double, n);', 'DOK=(__CPROVER_r_ok(d->xopt, n * sizeof(double)))'])
RAW += R('rosenbrock', [up(['ACC(@{s1}) && ACC(@{s2})'], n='@2 - 1', extra='s1 s2 tmp', ghost=INST + ' VF_INST(@1, @i + 1);')], opt='1.0', defines=['NMIN=2'])
RAW += R('different_powers', [up(['ACC(@{sum})'], extra='sum')], defines=['NMIN=2'])
RAW += R('sharp_ridge', [up([A, '@{alpha} == 100.0'], lo='vars_40', extra='result'), up([A], n='vars_40', extra='result')], defines=['NMIN=2'])
RAW += R('schaffers', [up([A], n='@2 - 1', extra='result', ghost=INST + ' VF_INST(@1, @i + 1);')], defines=['NMIN=2'])
RAW += R('rastrigin', [up(['ACC(@{sum2})', 'ACCR(@{sum1}, -(double)(long)@i, (double)(long)@i)'], extra='sum1 sum2')])
RAW += R('bueche_rastrigin', [up(['ACC(@{tmp2})', 'ACCR(@{tmp}, -(double)(long)@i, (double)(long)@i)'], extra='tmp tmp2')])
NN = 'vfg_K < @i && VF_NAN(@1[vfg_K]) ==> VF_NAN(@{result})'
G = lambda v, n: [up([A, NN, '@{condition} == 1.0e6'], n='@{%s}' % v, extra='result'), up([A, NN, '@{condition} == 1.0e6'], lo=v, extra='result')]
DEN = lambda t, f: ['DINIT=', 'DATA=' + t, 'DOK=(d->%s > 0 && d->%s <= VF_NMAX)' % (f, f)]
RAW += R('discus_generalized', G('nb_short_axes', 0), defines=DEN('f_discus_generalized_versatile_data_t', 'proportion_short_axes_denom') )
RAW += R('bent_cigar_generalized', G('nb_long_axes', 0), defines=DEN('f_bent_cigar_generalized_versatile_data_t', 'proportion_long_axes_denom'))
RAW += R('sharp_ridge_generalized', [up([A, '@{alpha} == 100.0'], lo='number_linear_dimensions', extra='result'), up([A], n='@{number_linear_dimensions}', extra='result')], defines=DEN('f_sharp_ridge_generalized_versatile_data_t', 'proportion_of_linear_dims') + ['NMIN=2'])
LS = lambda e='': [up([A, '@{alpha} == 100.0'], extra='result', ghost=INST + ' VF_ASSUME(@3[@i] == 5.0 || @3[@i] == -5.0);' + e)]
LSD = ['DATA=const double', 'DINIT=d = VF_ARR(double, n);', 'DOK=(__CPROVER_r_ok(d, n * sizeof(double)))', 'NMIN=2']
RAW += R('linear_slope', LS(), variants='F', defines=LSD, deep=True, timeout=900)
RAW += R('linear_slope', LS(), variants='A', defines=LSD, deep=True, timeout=900)
RAW += R('linear_slope', LS(' VF_ASSUME(@1[@i] == @3[@i]);'), variants='O', opt='NAN', defines=LSD + ['NOINST'])
for VAR, K in (('F', {}), ('A', dict(deep=True, timeout=900))):
  RAW += R('griewank_rosenbrock', [up(['ACCR(@{result}, -(double)(long)@i, INFINITY)'], n='@2 - 1', extra='result tmp', ghost=INST + ' VF_INST(@1, @i + 1);')], opt='1.0', lo=True, variants=VAR, defines=['NMIN=2', 'DATA=f_griewank_rosenbrock_data_t', 'DINIT=', 'DOK=(d->facftrue == 10.0)'], **K)
NOPTR = ['--no-pointer-check', '--no-bounds-check']
KI = dict(assigns='@{j}, @{tmp}, @{tmp2}', inv=['@{j} >= 1 && @{j} <= 33', 'KACC(@{tmp})'], dec='33 - @{j}', start='1')
RAW += R('katsuura', [up(['KRES(@{result})'], extra='result tmp tmp2 j'), KI], variants='FO', timeout=400)
RAW += R('katsuura', [up(['KRES(@{result})'], extra='result tmp tmp2 j'), KI], variants='A', deep=True, timeout=900)
P5 = lambda: up(['!(@{penalty} < 0)'], extra='penalty', ghost='')
def matl(buf):
    w = '__CPROVER_object_whole(%s)' % buf
    o, i = up([], extra='j', ghost=''), dict(assigns='@{j}, ' + w, inv=['@{j} <= @2'], dec='@2 - @{j}')
    o['assigns'] += ', ' + w
    return [o, i]
def fill(buf, **k):
    o = up([], ghost='')
    o['assigns'] += ', __CPROVER_object_whole(%s)' % buf
    return [o]
def allinv(c, ls):
    for l in ls:
        l['inv'] = l['inv'] + [c]
    return ls
RAW += R('step_ellipsoid', allinv('@{condition} == 100.0', [P5()] + matl('@3->x') + fill('@3->x') + matl('@3->xx') + [up([A], extra='result', ghost='')]), variants='A', flags=NOPTR, deep=True, timeout=900,
         defines=['NMIN=2', 'DATA=f_step_ellipsoid_data_t', 'DINIT=d->x = VF_ARR(double, n); d->xx = VF_ARR(double, n); d->xopt = VF_ARR(double, n); d->rot1 = (double **)VF_ARR(double, n); d->rot2 = (double **)VF_ARR(double, n);', 'DOK=(d->penalty_scale >= 0 && VF_FIN(d->fopt))', 'LOWER=d->fopt', 'ASG=, __CPROVER_object_whole(d->x), __CPROVER_object_whole(d->xx)'])
RAW += R('lunacek_bi_rastrigin', allinv('@{d} == 1.0', [P5()] + fill('@3->x_hat') + matl('tmpvect') + matl('@3->z') + [up(['!(@{sum1} < 0) && !(@{sum2} < 0)', 'ACCR(@{sum3}, -(double)(long)@i, (double)(long)@i)'], extra='sum1 sum2 sum3', ghost='')]), variants='A', flags=NOPTR, deep=True, timeout=900,
         defines=['NMIN=2', 'DATA=f_lunacek_bi_rastrigin_data_t', 'DINIT=d->x_hat = VF_ARR(double, n); d->z = VF_ARR(double, n); d->xopt = VF_ARR(double, n); d->rot1 = (double **)VF_ARR(double, n); d->rot2 = (double **)VF_ARR(double, n);', 'ASG=, __CPROVER_object_whole(d->x_hat), __CPROVER_object_whole(d->z)'])
GP = up(['!(@{f_pen} < 0)'], extra='f_pen tmp', ghost='')
PK = dict(up([], n='@3->number_of_peaks', extra='j f tmp tmp2', ghost=''))
RAW += R('gallagher', [GP] + matl('tmx') + [PK, dict(assigns='@{j}, @{tmp}, @{tmp2}', inv=['@{j} <= @2'], dec='@2 - @{j}')], variants='A', flags=NOPTR,
         defines=['NMIN=1', 'DATA=f_gallagher_data_t', 'DINIT=d->rotation = (double **)VF_ARR(double, n); d->x_local = (double **)VF_ARR(double, n); d->arr_scales = (double **)VF_ARR(double, 102); d->peak_values = VF_ARR(double, 102);', 'DOK=(d->penalty_scale >= 0 && d->number_of_peaks <= 101)'])
