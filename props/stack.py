"""Proofs of composite problems (units/p_stack.c)."""
from vf.core import Proof, Bounded
C, L = 'coco_problem.c', 'c_linear.c'
N = '@1->number_of_variables'


def P(name, sel, enforce, **k):
    return Proof(name, 'p_stack.c', 'h', enforce, k.pop('replace', []), k.pop('loops', None), defines=sel.split(), **k)


GR = '((linear_constraint_data_t *)((coco_problem_transformed_data_t *)@1->data)->data)->gradient'
DX = '((linear_constraint_data_t *)((coco_problem_transformed_data_t *)@1->data)->data)'
STACK = [
    P('stacked_evaluate_function', 'S_EVAL', 'coco_problem_stacked_evaluate_function/ct_stacked_eval', replace=['coco_evaluate_function/ct_eval', 'coco_is_feasible/ct_feas']),
    P('stacked_evaluate_constraint', 'S_CONS', 'coco_problem_stacked_evaluate_constraint/ct_stacked_cons', replace=['coco_evaluate_constraint_optional_update/ct_cons']),
    P('stacked_allocate', 'ALLOC', 'coco_problem_stacked_allocate/ct_stacked_allocate', replace=['coco_evaluate_function/ct_eval', 'coco_duplicate_vector/ct_dupvec'], calls={'coco_problem_allocate': 'st_alloc', 'coco_strconcat': 'st_concat'},
      loops={C: {'coco_problem_stacked_allocate': [dict(assigns='@i, __CPROVER_object_whole(@{problem}->smallest_values_of_interest), __CPROVER_object_whole(@{problem}->largest_values_of_interest)', dec='@{number_of_variables} - @i',
             inv=['@i <= @{number_of_variables}', 'vfg_K < @i ==> (VF_SAME(@{problem}->smallest_values_of_interest[vfg_K], @3[vfg_K]) && VF_SAME(@{problem}->largest_values_of_interest[vfg_K], @4[vfg_K]))'])]}}),
]
LINEAR = [
    P('c_sum_variables', 'LIN S_SUM', 'c_sum_variables_evaluate/ct_sum', loops={L: {'c_sum_variables_evaluate': [dict(assigns='@i, @3[0], vfg_yJ, vfg_set', inv=['@i <= ' + N, 'VF_SAME(@3[0], vfg_yJ)', 'vfg_set == (@i > 0)'], dec=N + ' - @i', ghost='vfg_set = 1; if (CNT(@2[@i])) vfg_yJ += @2[@i];')]}}),
    P('c_linear_single', 'LIN S_SINGLE', 'c_linear_single_evaluate/ct_single', fptrs={'evaluate_constraint': ['stub_inner']}, loops={L: {'c_linear_single_evaluate': [
        dict(shape='any', assigns='@{i}, vfg_img, __CPROVER_object_whole(%s->x)' % DX, inv=['@{i} <= ' + N, 'vfg_K < @{i} ==> VF_SAME(%s->x[vfg_K], vfg_img)' % DX], dec=N + ' - @{i}',
             ghost='if (@{i} == vfg_K) vfg_img = %s->gradient[@{i}] * (@2[@{i}] - (%s->x_shift_factor / %s->gradient_norm) * %s->gradient[@{i}]);' % ((DX,) * 4))]}}),
    P('c_guarantee_feasible_point', 'LIN S_GUAR', 'c_guarantee_feasible_point/ct_guarantee', replace=['coco_duplicate_vector/ct_dupvec2'], fptrs={'evaluate_constraint': ['stub_linear']}, loops={L: {'c_guarantee_feasible_point': [
        dict(assigns='@i, __CPROVER_object_whole(%s)' % GR, inv=['@i <= ' + N, 'VF_SAME(%s[vfg_K], vfg_K < @i ? -vfg_yJ : vfg_yJ)' % GR], dec=N + ' - @i')]}}),
]
