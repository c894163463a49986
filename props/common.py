from vf.core import Proof as _Proof, Bounded

FP = {'evaluate_function': ['stub_eval'], 'evaluate_constraint': ['stub_cons']}


def Proof(*a, **k):
    k.setdefault('fptrs', FP)
    return _Proof(*a, **k)


U = 'coco_utilities.c'
NV = 'problem->number_of_variables'


def up(assigns, inv, n, **kw):
    """ascending counter loop 0..n-1"""
    return dict(assigns='@i' + (', ' + assigns if assigns else ''), inv=['@i <= ' + n] + list(inv), dec='%s - @i' % n, **kw)


L_CONTAINS_NAN = {'coco_vector_contains_nan': [up('vfg_wnan', ['vfg_K < @i ==> !VF_NAN(@1[vfg_K])'], '@2', ghost='vfg_wnan = @i;')]}
L_ISFINITE = {'coco_vector_isfinite': [up('vfg_wfin', ['vfg_K < @i ==> VF_FIN(@1[vfg_K])'], '@2', ghost='vfg_wfin = @i;')]}
L_SETNAN = {'coco_vector_set_to_nan': [up('__CPROVER_object_whole(@1)', ['vfg_J < @i ==> VF_NAN(@1[vfg_J])'], '@2')]}
L_SETINF = {'coco_vector_set_to_inf': [up('__CPROVER_object_whole(@1)', ['vfg_J < @i ==> VF_PINF(@1[vfg_J])'], '@2')]}
L_FEAS = {'coco_is_feasible': [up('vfg_wg, vfg_gval, ret_val', ['vfg_J < @i ==> !(@{cons_values}[vfg_J] > 0)', '@{ret_val} == 1'],
                                 '@1->number_of_constraints', ghost='vfg_wg = @i; vfg_gval = @{cons_values}[@i];')]}
_EV = lambda ncount: [
    up('vfg_winf', ['vfg_K < @i ==> !VF_INF(@2[vfg_K])',
                    'vfg_winf < @1->number_of_variables ==> !VF_INF(@2[vfg_winf])'], '@1->number_of_variables',
       pre='vfg_winf = (size_t)-1;', ghost='vfg_winf = @i;'),
    up('__CPROVER_object_whole(@3)', ['vfg_J < @i ==> VF_PINF(@3[vfg_J])'], '@1->' + ncount)]
L_EVAL = {'coco_evaluate_function': _EV('number_of_objectives')}
L_CONS = {'coco_evaluate_constraint_optional_update': _EV('number_of_constraints')}

SCALARS = [
    Proof('is_nan', 'p_eval.c', 'h_scalar', 'coco_is_nan/ct_is_nan', defines=['F_ISNAN']),
    Proof('is_inf', 'p_eval.c', 'h_scalar', 'coco_is_inf/ct_is_inf', ['coco_is_nan/ct_is_nan']),
]
R_SC = ['coco_is_nan/ct_is_nan', 'coco_is_inf/ct_is_inf']
VECTORS = [
    Proof('vector_contains_nan', 'p_eval.c', 'h_vec', 'coco_vector_contains_nan/ct_vector_contains_nan', R_SC, {U: L_CONTAINS_NAN}, defines=['F_CONTAINS_NAN']),
    Proof('vector_set_to_nan', 'p_eval.c', 'h_vec', 'coco_vector_set_to_nan/ct_vector_set_to_nan', [], {U: L_SETNAN}, defines=['F_SET_NAN']),
]
ISFINITE = Proof('vector_isfinite', 'p_eval.c', 'h_vec', 'coco_vector_isfinite/ct_vector_isfinite', R_SC, {U: L_ISFINITE}, defines=['F_ISFINITE'])
R_VEC = R_SC + ['coco_vector_contains_nan/ct_vector_contains_nan', 'coco_vector_set_to_nan/ct_vector_set_to_nan', 'coco_vector_isfinite/ct_vector_isfinite']
def EVALS(v):
    d = ['VF_P=%d' % v]
    EVAL = Proof('evaluate_function', 'p_eval.c', 'h_eval', 'coco_evaluate_function/ct_evaluate_function', R_VEC,
             {'coco_problem.c': L_EVAL, U: L_FEAS}, functions=['coco_evaluate_function', 'coco_is_feasible (inlined with loop contract)'], defines=d)
    CONS = Proof('evaluate_constraint_optional_update', 'p_eval.c', 'h_cons',
             'coco_evaluate_constraint_optional_update/ct_evaluate_constraint_opt', R_VEC, {'coco_problem.c': L_CONS}, defines=d)
    CONS1 = Proof('evaluate_constraint', 'p_eval.c', 'h_cons', 'coco_evaluate_constraint/ct_evaluate_constraint',
              ['coco_evaluate_constraint_optional_update/ct_evaluate_constraint_opt'], defines=d + ['EXPLICIT'])
    return [EVAL, CONS, CONS1]


FEAS = Proof('is_feasible', 'p_eval.c', 'h_feas', 'coco_is_feasible/ct_is_feasible', R_VEC, {U: L_FEAS})
GET = [Proof('get_final_target_hit_unknown', 'p_eval.c', 'h_get', 'coco_problem_final_target_hit/ct_final_target_hit', defines=['F_HIT', 'NO_OPT'])] + [Proof('get_' + n, 'p_eval.c', 'h_get', f + '/' + c, defines=['F_' + d]) for n, f, c, d in [
    ('final_target_hit', 'coco_problem_final_target_hit', 'ct_final_target_hit', 'HIT'),
    ('evaluations', 'coco_problem_get_evaluations', 'ct_get_evaluations', 'EVALS'),
    ('evaluations_constraints', 'coco_problem_get_evaluations_constraints', 'ct_get_evaluations_constraints', 'CEVALS'),
    ('best_observed', 'coco_problem_get_best_observed_fvalue1', 'ct_get_best_observed', 'BEST'),
    ('final_target', 'coco_problem_get_final_target_fvalue1', 'ct_get_final_target', 'TARGET'),
    ('best_value', 'coco_problem_get_best_value', 'ct_get_best_value', 'BESTV')]]
def B_EVAL(v):
    return Bounded('eval', 'b_eval.c', unwind=9, defines=['VF_P=%d' % v], bound='dimension <= 3, objectives <= 2, constraints <= 2 (native search: dimension <= 130)',
                 functions=['coco_evaluate_function', 'coco_evaluate_constraint_optional_update', 'coco_is_feasible'])
