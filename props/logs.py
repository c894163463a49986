from vf.core import Proof, Bounded
from .common import R_SC
LB = 'logger_bbob.c'
ST = {'coco_evaluate_function': 'vf_eval', 'coco_is_feasible': 'vf_feas', 'logger_bbob_initialize': 'vf_init', 'logger_bbob_output': 'vf_output',
      'coco_observer_targets_trigger': 'vf_ttrig', 'coco_observer_evaluations_trigger': 'vf_etrig', 'fclose': 'vf_fclose',
      'coco_observer_targets_free': 'vf_tfree', 'coco_observer_evaluations_free': 'vf_efree'}
FP = {'evaluate_constraint': ['stub_cons']}
NC, NV = '@1->number_of_constraints', '@1->number_of_variables'
SUML = dict(assigns='@i, vfg_sum, @{sum_constraints}', inv=['@i <= ' + NC, '@{sum_constraints} >= 0', '%s == 0 ==> @{sum_constraints} == 0' % NC, 'vfg_sum == @{sum_constraints}'], dec=NC + ' - @i',
            ghost='if (@{constraints}[@i] > 0) vfg_sum += @{constraints}[@i];')
def CPL(a):
    return dict(assigns='@i, __CPROVER_object_whole(%s)' % a, inv=['@i <= ' + NV, 'vfg_K < @i ==> VF_SAME(%s[vfg_K], vfg_xK)' % a], dec=NV + ' - @i')
LOGS = [
    Proof('logger_bbob_evaluate', 'p_log.c', 'h_log', 'logger_bbob_evaluate/ct_evaluate', [], {LB: {'logger_bbob_evaluate': [SUML, CPL('vfg_bs')]}}, defines=['L_EVAL'], fptrs=FP, calls=ST),
    Proof('logger_bbob_evaluate_value', 'p_log.c', 'h_log', 'logger_bbob_evaluate/ct_evaluate', [], {LB: {'logger_bbob_evaluate': [SUML, CPL('vfg_bs')]}}, defines=['L_EVAL', 'L_VAL'], fptrs=FP, calls=ST),
    Proof('logger_bbob_recommend', 'p_log.c', 'h_log', 'logger_bbob_recommend/ct_recommend', [], {LB: {'logger_bbob_recommend': [SUML, CPL('vfg_br')]}}, defines=['L_REC'], fptrs=FP, calls=ST),
    Proof('logger_bbob_free', 'p_log.c', 'h_log', 'logger_bbob_free/ct_free', defines=['L_FREE'], fptrs=FP, calls=dict(ST, coco_free_memory='vf_free')),
]
