"""Proofs of the noise models and random number generators (units/p_noise.c)."""
from vf.core import Proof, Bounded
L, R, Z = 'suite_bbob_legacy_code.c', 'coco_random.c', 'suite_bbob_noisy_utilities.c'
M = '@1->number_of_objectives'


def P(name, sel, enforce, **k):
    return Proof(name, 'p_noise.c', 'h', enforce, k.pop('replace', []), k.pop('loops', None), defines=[sel] + list(k.pop('defines', [])), **k)


def NOISE(kind, sel):
    f = 'transform_obj_%s_noise' % kind
    return P('noise_' + kind, sel, f + '_evaluate_function/ct_noise', replace=['coco_sample_uniform_noise/ct_uniform_use', 'coco_sample_gaussian_noise/ct_gaussian_use', 'coco_boundary_handling/ct_penalty'],
             fptrs={'evaluate_function': ['stub_eval']}, unwind=12, loops={f + '.c': {f + '_evaluate_function': [dict(assigns='@i, __CPROVER_object_whole(@1->last_noise_free_values)', inv=['@i <= ' + M, 'vfg_J < @i ==> VF_SAME(@1->last_noise_free_values[vfg_J], vfg_yJ)'], dec=M + ' - @i')]}})


N = '@1->number_of_variables'
XO = '(@2[%s] > @1->largest_values_of_interest[%s] || @2[%s] < @1->smallest_values_of_interest[%s])'
NOISES = [NOISE('gaussian', 'N_GAUSS'), NOISE('uniform', 'N_UNIF'), NOISE('cauchy', 'N_CAUCHY')]
PEN = P('boundary_handling', 'N_PEN', 'coco_boundary_handling/ct_penalty_body', loops={Z: {'coco_boundary_handling': [
    dict(assigns='@i, @{penalty}, @{lower_bound}, @{upper_bound}, vfg_out', inv=['@i <= ' + N, '@{penalty} >= 0', 'vfg_out == 0 ==> @{penalty} == 0', 'vfg_K < @i && vfg_out == 0 ==> !' + XO % (('vfg_K',) * 4)],
         dec=N + ' - @i', ghost='if %s vfg_out = 1;' % (XO % (('@i',) * 4)))]}})
SEEDS = [
    P('sample_uniform', 'N_SU', 'coco_sample_uniform_noise/ct_uniform', replace=['bbob2009_unif/ct_unif_use']),
    P('sample_gaussian', 'N_SG', 'coco_sample_gaussian_noise/ct_gaussian', replace=['bbob2009_gauss/ct_gauss_use']),
]
AK = '@{aktseed} >= 0 && @{aktseed} <= 2147483647L'
RG = '%s(vfg_K < 32) ==> (@{rgrand}[vfg_K] >= 0 && @{rgrand}[vfg_K] <= 2147483647L)'
LEGACY = [
    P('bbob2009_unif', 'N_BU', 'bbob2009_unif/ct_unif', timeout=880, loops={L: {'bbob2009_unif': [
        dict(shape='any', assigns='@{i}, @{tmp}, @{aktseed}, __CPROVER_object_whole(@{rgrand})', inv=['@{i} >= -1 && @{i} <= 39', AK, RG % '(long)vfg_K > @{i} && ', '0 > @{i} ==> (@{rgrand}[0] >= 0 && @{rgrand}[0] <= 2147483647L)'], dec='@{i} + 1'),
        dict(shape='any', assigns='@{i}, @{tmp}, @{aktseed}, @{aktrand}, __CPROVER_object_whole(@{rgrand}), __CPROVER_object_upto(@1, @2 * sizeof(double))', dec='(long)@2 - @{i}',
             inv=['@{i} >= 0 && @{i} <= (long)@2', AK, '@{aktrand} >= 0 && @{aktrand} <= 2147483647L', RG % ''] + ['%s < (size_t)@{i} ==> (@1[%s] >= 1e-99 && @1[%s] <= 1)' % ((v,) * 3) for v in ('vfg_J',)],
             ghost='__CPROVER_assume(@{rgrand}[(int)floor((double)@{aktrand} / 67108865.0)] >= 0 && @{rgrand}[(int)floor((double)@{aktrand} / 67108865.0)] <= 2147483647L); ')]  # instance of the invariant, which holds for every vfg_K
        }}),
    P('bbob2009_gauss', 'N_BG', 'bbob2009_gauss/ct_gauss', replace=['bbob2009_unif/ct_unif_gauss'], loops={L: {'bbob2009_gauss': [
        dict(assigns='@i, __CPROVER_object_whole(@1)', inv=['@i <= @2', 'vfg_K < @i ==> (@1[vfg_K] >= -22 && @1[vfg_K] <= 22 && @1[vfg_K] != 0)'], dec='@2 - @i')]}}),
]
INR = 'INR(@1, vfg_K)'
INST = lambda k: '__CPROVER_assume(INR(@1, %s)); ' % k  # instances of the invariant, which holds for every vfg_K
RND = [
    P('random_normal', 'N_RN', 'coco_random_normal/ct_random_normal', replace=['coco_random_uniform/ct_random_uniform_use']),
    P('random_generate', 'N_GEN', 'coco_random_generate/ct_generate', timeout=600, loops={R: {'coco_random_generate': [dict(shape='any', assigns='@{i}, __CPROVER_object_whole(@1)', inv=['@{i} <= 273', INR], dec='273 - @{i}', ghost=INST('@{i}') + INST('@{i} + 334')), dict(shape='any', assigns='@{i}, __CPROVER_object_whole(@1)', inv=['@{i} >= 273 && @{i} <= 607', INR], dec='607 - @{i}', ghost=INST('@{i}') + INST('@{i} - 273'))]}}),
    P('random_uniform', 'N_RU', 'coco_random_uniform/ct_random_uniform', replace=['coco_random_generate/ct_generate_use']),
    P('random_new', 'N_NEW', 'coco_random_new/ct_random_new', loops={R: {'coco_random_new': [dict(shape='any', assigns='@{i}, @1, __CPROVER_object_whole(@{state})', inv=['@{i} <= 607', 'vfg_K < @{i} && vfg_K < 607 ==> (@{state}->x[vfg_K] >= 0 && @{state}->x[vfg_K] < 1)'], dec='607 - @{i}')]}}),
]
