from vf.core import Proof as _P, Bounded
from .vars import RV, FEAS

D = '((DATA *)((coco_problem_transformed_data_t *)@1->data)->data)'
M = '@1->number_of_objectives'


def oloop(im, extra=''):
    return dict(assigns='@i, vfg_img, vfg_set, __CPROVER_object_whole(@3)' + extra,
                inv=['@i <= ' + M, '@i <= vfg_J ==> VF_SAME(@3[vfg_J], vfg_yJ)', 'vfg_J < @i ==> (vfg_set == 1 && VF_SAME(@3[vfg_J], vfg_img))'], dec=M + ' - @i',
                ghost='if (@i == vfg_J) { vfg_img = %s; vfg_set = 1; }' % im)


def O(name, sel, src, fn, loops, **k):
    return _P(name, 'p_obj.c', 'h_o', fn + '/ct_fn', RV + k.pop('replace', []), {src: {fn: loops}} if loops else {}, defines=['O_' + sel], fptrs={'evaluate_function': ['stub_eval']}, **k)


T = 'transform_obj_'
OBJS = [
    O('obj_shift', 'SHIFT', T + 'shift.c', T + 'shift_evaluate_function', [oloop('@3[@i] + %s->offset' % D)]),
    O('obj_scale', 'SCALE', T + 'scale.c', T + 'scale_evaluate_function', [oloop('@3[@i] * %s->factor' % D)]),
    O('obj_power', 'POWER', T + 'power.c', T + 'power_evaluate', [oloop('pow(@3[@i], %s->exponent)' % D)]),
    O('obj_oscillate', 'OSZ', T + 'oscillate.c', T + 'oscillate_evaluate', [dict(assigns='@i, __CPROVER_object_whole(@3)', dec=M + ' - @i',
        inv=['@i <= ' + M, '@i <= vfg_J ==> VF_SAME(@3[vfg_J], vfg_yJ)', 'vfg_J < @i ==> OREL(vfg_yJ, @3[vfg_J])'])]),
    O('obj_penalize', 'PEN', T + 'penalize.c', T + 'penalize_evaluate', [
        dict(assigns='@i, vfg_out, @{penalty}', inv=['@i <= @1->number_of_variables', 'vfg_out == 0 ==> @{penalty} == 0.0', '@{penalty} >= 0', 'vfg_K < @i && vfg_out == 0 ==> !(@2[vfg_K] > @1->largest_values_of_interest[vfg_K] || @2[vfg_K] < @1->smallest_values_of_interest[vfg_K])'], dec='@1->number_of_variables - @i',
             ghost='if (@2[@i] > @1->largest_values_of_interest[@i] || @2[@i] < @1->smallest_values_of_interest[@i]) vfg_out = 1;'),
        dict(assigns='@i, __CPROVER_object_whole(@3)', inv=['@i <= ' + M, '@i <= vfg_J ==> VF_SAME(@3[vfg_J], vfg_yJ)', 'vfg_J < @i && vfg_out == 0 ==> VF_SAME(@3[vfg_J], vfg_yJ)', 'vfg_J < @i && VF_FIN(vfg_yJ) ==> !(@3[vfg_J] < vfg_yJ)'], dec=M + ' - @i')]),
    O('obj_norm_by_dim', 'NORM', T + 'norm_by_dim.c', T + 'norm_by_dim_evaluate', None),
]


def B_TRANS(p, secs=12):
    return Bounded('trans', 'b_trans.c', defines=['VF_P=%d' % p], standin=True, cbmc=False, search_iters=3000000, search_secs=secs,
                   bound='random chains of 1-3 transformations, dimensions 2-8, %d s' % secs)
