from vf.core import Proof as _P, Bounded
from .objs import B_TRANS
U = 'coco_utilities.c'
BASE = ['coco_vector_contains_nan/ct_vector_contains_nan', 'coco_vector_set_to_nan/ct_set_nan', 'coco_strdup/ct_strdup']
REP = BASE + ['coco_problem_best_parameter_not_zero/ct_not_zero', 'bbob2009_unif/ct_unif']
DUPV = {U: {'coco_duplicate_vector': [dict(assigns='@i, __CPROVER_object_whole(@{dst})', inv=['@i <= @2', 'vfg_K < @i ==> VF_SAME(@{dst}[vfg_K], @1[vfg_K])'], dec='@2 - @i')]}}


def lp(n, inv, assigns, **k):
    return dict(assigns='@i, ' + assigns, inv=['@i <= ' + n] + list(inv), dec='%s - @i' % n, **k)


def C(name, sel, src, fn, loops, **k):
    return _P(name, 'p_meta.c', 'h_m', fn + '/ct_c', REP, dict({src: {fn: loops}} if loops else {}, **DUPV), defines=['C_' + sel], calls={'coco_problem_transformed_allocate': 'st_talloc'}, **k)


PN = '@{problem}->number_of_variables'
PM = '@{problem}->number_of_objectives'
BP = '@{problem}->best_parameter'
IS = '@{problem}->initial_solution'
BV = '@{problem}->best_value'
META_PROOFS = [
    _P('duplicate', 'p_meta.c', 'h_m', 'coco_problem_duplicate/ct_dup', BASE + ['coco_duplicate_vector/ct_dupvec'], {'coco_problem.c': {'coco_problem_duplicate': [
        lp(PN, ['vfg_K < @i ==> (VF_SAME(@{problem}->smallest_values_of_interest[vfg_K], @1->smallest_values_of_interest[vfg_K]) && VF_SAME(@{problem}->largest_values_of_interest[vfg_K], @1->largest_values_of_interest[vfg_K]) && (@1->best_parameter == NULL || VF_SAME(@{problem}->best_parameter[vfg_K], @1->best_parameter[vfg_K])))'],
           '__CPROVER_object_whole(@{problem}->smallest_values_of_interest), __CPROVER_object_whole(@{problem}->largest_values_of_interest); @{problem}->best_parameter != NULL : __CPROVER_object_whole(@{problem}->best_parameter)'),
        lp(PM, ['vfg_J < @i ==> VF_SAME(%s[vfg_J], @1->best_value[vfg_J])' % BV], '__CPROVER_object_whole(%s)' % BV),
        lp(PM, ['vfg_J < @i ==> VF_SAME(@{problem}->nadir_value[vfg_J], @1->nadir_value[vfg_J])'], '__CPROVER_object_whole(@{problem}->nadir_value)')]}},
       defines=['C_DUP'], functions=['coco_problem_duplicate', 'coco_problem_allocate', 'coco_allocate_vector']),
    _P('best_parameter_not_zero', 'p_meta.c', 'h_m', 'coco_problem_best_parameter_not_zero/ct_nz', BASE, {'coco_problem.c': {'coco_problem_best_parameter_not_zero': [
        dict(assigns='@{i}, @{best_is_zero}, vfg_wz', inv=['@{i} <= @1->number_of_variables', '@{best_is_zero} ==> (vfg_K < @{i} ==> (@1->best_parameter[vfg_K] < 1e-8 && @1->best_parameter[vfg_K] > -1e-8))',
             '!@{best_is_zero} ==> (vfg_wz < @1->number_of_variables && @1->best_parameter[vfg_wz] != 0)'], ghost='vfg_wz = @{i};', dec='@1->number_of_variables - @{i}')]}}, defines=['C_NZ'],
       functions=['coco_problem_best_parameter_not_zero', 'coco_double_almost_equal']),
    C('new_shift', 'SHIFT', 'transform_vars_shift.c', 'transform_vars_shift', [
        lp(PN, ['@i <= vfg_K ==> VF_SAME(%s[vfg_K], vfg_bp)' % BP, 'vfg_K < @i ==> VF_SAME(%s[vfg_K], vfg_img)' % BP], 'vfg_img, __CPROVER_object_whole(%s)' % BP, ghost='if (@i == vfg_K) vfg_img = %s[@i] + @{data}->offset[@i];' % BP),
        lp(PN, ['@i <= vfg_K ==> VF_SAME(%s[vfg_K], vfg_in)' % IS, 'vfg_K < @i ==> VF_SAME(%s[vfg_K], vfg_img2)' % IS], 'vfg_img2, __CPROVER_object_whole(%s)' % IS, ghost='if (@i == vfg_K) vfg_img2 = %s[@i] + @{data}->offset[@i];' % IS)]),
    C('new_scale', 'SCALE', 'transform_vars_scale.c', 'transform_vars_scale', [
        lp(PN, ['(@i <= vfg_K || @2 == 1.0) ==> VF_SAME(%s[vfg_K], vfg_bp)' % BP], '__CPROVER_object_whole(%s)' % BP)]),
    C('new_obj_shift', 'OSHIFT', 'transform_obj_shift.c', 'transform_obj_shift', [
        lp(PM, ['@i <= vfg_J ==> VF_SAME(%s[vfg_J], vfg_bv)' % BV, 'vfg_J < @i ==> VF_SAME(%s[vfg_J], vfg_img)' % BV], 'vfg_img, __CPROVER_object_whole(%s)' % BV, ghost='if (@i == vfg_J) vfg_img = %s[@i] + @2;' % BV)]),
    C('new_obj_scale', 'OSCALE', 'transform_obj_scale.c', 'transform_obj_scale', [
        lp(PM, ['@i <= vfg_J ==> VF_SAME(%s[vfg_J], vfg_bv)' % BV, 'vfg_J < @i ==> VF_SAME(%s[vfg_J], vfg_img)' % BV], 'vfg_img, __CPROVER_object_whole(%s)' % BV, ghost='if (@i == vfg_J) vfg_img = %s[@i] * @2;' % BV)]),
    C('new_brs', 'BRS', None, 'transform_vars_brs', None),
    C('new_conditioning', 'COND', None, 'transform_vars_conditioning', None),
    C('new_asymmetric', 'ASY', None, 'transform_vars_asymmetric', None),
    C('new_x_hat', 'XHAT', 'transform_vars_x_hat.c', 'transform_vars_x_hat', [
        lp(PN, ['@i <= vfg_K ==> VF_SAME(%s[vfg_K], vfg_bp)' % BP, 'vfg_K < @i ==> VF_SAME(%s[vfg_K], vfg_u < 0.5 ? -vfg_bp : vfg_bp)' % BP, 'vfg_u == ((transform_vars_x_hat_data_t *)vfg_data)->x[vfg_K]'], '__CPROVER_object_whole(%s)' % BP)]),
]


GP = 'coco_problem.c'
GN = '@1->number_of_variables'
GETS = [
    _P('initial_solution', 'p_get.c', 'h_get', 'coco_problem_get_initial_solution/ct_init', ['coco_double_round/ct_round'], {GP: {'coco_problem_get_initial_solution': [
        lp(GN, ['vfg_K < @i ==> VF_SAME(@2[vfg_K], @1->initial_solution[vfg_K])'], '__CPROVER_object_whole(@2)'),
        lp(GN, ['vfg_K < @i ==> VF_SAME(@2[vfg_K], vfg_img)'], 'vfg_img, __CPROVER_object_whole(@2)', ghost='if (@i == vfg_K) vfg_img = CTR(@1, @i);'),
        lp('@1->number_of_integer_variables', ['vfg_K < @i ==> VF_SAME(@2[vfg_K], vfg_r)', '@i <= vfg_K ==> VF_SAME(@2[vfg_K], vfg_img)'], 'vfg_r, __CPROVER_object_whole(@2)', ghost='if (@i == vfg_K) vfg_r = RND(@2[@i]);')]}}, defines=['G_INIT']),
    _P('best_parameter', 'p_get.c', 'h_get', 'coco_problem_get_best_parameter/ct_best', [], {GP: {'coco_problem_get_best_parameter': [
        lp(GN, ['vfg_K < @i ==> VF_SAME(@2[vfg_K], @1->best_parameter[vfg_K])'], '__CPROVER_object_whole(@2)')]}}),
]
