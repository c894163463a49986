"""Proofs of release (units/p_free.c)."""
from vf.core import Proof, Bounded


def P(name, sel, enforce, **k):
    return Proof(name, 'p_free.c', 'h', enforce, k.pop('replace', []), k.pop('loops', None), defines=sel.split(), **k)


REL = [
    P('problem_free_generic', 'P_GENERIC', 'coco_problem_free/ct_free_generic'),
    P('problem_free_special', 'P_SPECIAL', 'coco_problem_free/ct_free_special', fptrs={'problem_free_function': ['stub_free']}),
    P('transformed_free_data', 'P_DATA', 'coco_problem_transformed_free_data/ct_free_data', calls={'coco_problem_free': 'st_pfree'}, fptrs={'data_free_function': ['stub_data_free']}),
    P('transformed_free', 'P_TRANS', 'coco_problem_transformed_free/ct_transformed_free', replace=['coco_problem_transformed_free_data/ct_free_data_use'], calls={'coco_problem_free': 'st_pfree'}),
    P('stacked_free', 'P_STACKED', 'coco_problem_stacked_free/ct_stacked_free', calls={'coco_problem_free': 'st_pfree'}),
    P('linear_free', 'P_LINEAR', 'c_linear_gradient_free/ct_linear_free'),
    P('affine_free', 'P_AFFINE', 'transform_vars_affine_free/ct_affine_free'),
]
NI = ['coco_suite_is_next_instance_found/ct_next_i', 'coco_suite_is_next_function_found/ct_next_f', 'coco_suite_is_next_dimension_found/ct_next_d']
SUITE = [
    P('suite_free', 'F_SUITE S_FREE', 'coco_suite_free/ct_suite_free', replace=['coco_problem_free/ct_free_current'], fptrs={'data_free_function': ['stub_data_free']}),
    P('suite_next', 'F_SUITE S_NEXT', 'coco_suite_get_next_problem/ct_next', replace=NI + ['coco_problem_free/ct_free_current', 'coco_suite_get_problem_from_indices/ct_get', 'coco_problem_add_observer/ct_add']),
]
OBS = [
    P('observer_free', 'F_OBS O_FREE', 'coco_observer_free/ct_observer_free', fptrs={'data_free_function': ['stub_data_free']}),
    P('targets_free', 'F_OBS O_TARGETS', 'coco_observer_targets_free/ct_targets_free'),
    P('evaluations_free', 'F_OBS O_EVALS', 'coco_observer_evaluations_free/ct_evaluations_free'),
    P('remove_observer', 'F_OBS O_REMOVE', 'coco_problem_remove_observer/ct_remove_observer', replace=['coco_problem_transformed_free_data/ct_free_data_use'], calls={'coco_remove_from_string': 'st_prefix', 'strcmp': 'st_strcmp'}),
]


def T(name, a, b=None):
    f = 'transform_vars_%s_free' % name
    t = 'transform_vars_%s%s' % (name, '_t' if name == 'permutation' else '_data_t')
    return Proof('free_' + name, 'p_free.c', 'h', f + '/ct_t_free', [], None, defines=['T_FREE=' + f, 'T_TYPE=' + t, 'T_A=' + a] + (['T_B=' + b] if b else []))


TRANS = [T('asymmetric', 'x'), T('brs', 'x'), T('conditioning', 'x'), T('discretize', 'offset'), T('oscillate', 'oscillated_x'), T('permutation', 'x', 'P'), T('round_step', 'rounded_x'),
         T('scale', 'x'), T('shift', 'shifted_x', 'offset'), T('x_hat', 'x'), T('x_hat_generic', 'x', 'sign_vector'), T('z_hat', 'xopt', 'z')]
