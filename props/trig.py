from vf.core import Proof, Bounded
OB = 'coco_observer.c'
D2S = {'coco_double_to_size_t': 'vf_d2s'}
TRIG = [
    Proof('evaluations_trigger_first', 'p_trig.c', 'h_ev', 'coco_observer_evaluations_trigger_first/ct_first', [], {OB: {'coco_observer_evaluations_trigger_first': [
        dict(shape='any', assigns='@1->exponent1, vfg_img1, vfg_set', pre='vfg_e0 = @1->exponent1; vfg_set = (vfg_K == @1->exponent1); vfg_img1 = V1(@1->exponent1, @1->number_of_triggers);',
             inv=['@1->exponent1 >= vfg_e0', '(vfg_K >= vfg_e0 && vfg_K < @1->exponent1) ==> (vfg_set == 1 && vfg_img1 <= @1->value1)'],
             ghost='__CPROVER_assume(@1->exponent1 < 1000000000); if (vfg_K == @1->exponent1) { vfg_set = 1; vfg_img1 = V1(@1->exponent1, @1->number_of_triggers); }')]}}, defines=['T_FIRST'], calls=D2S),
    Proof('evaluations_trigger_second', 'p_trig.c', 'h_ev', 'coco_observer_evaluations_trigger_second/ct_second', defines=['T_SECOND'], calls=D2S),
    Proof('evaluations_trigger', 'p_trig.c', 'h_ev', 'coco_observer_evaluations_trigger/ct_both', ['coco_observer_evaluations_trigger_first/ct_first_c', 'coco_observer_evaluations_trigger_second/ct_second_c']),
    Proof('log_targets_trigger', 'p_trig.c', 'h_tg', 'coco_observer_log_targets_trigger/ct_log', defines=['T_LOG'], flags=['--no-signed-overflow-check']),
    Proof('lin_targets_trigger', 'p_trig.c', 'h_tg', 'coco_observer_lin_targets_trigger/ct_lin', defines=['T_LIN'], calls={'coco_double_round_up_with_precision': 'vf_ru'}),
    Proof('targets_trigger', 'p_trig.c', 'h_tg', 'coco_observer_targets_trigger/ct_targets', ['coco_observer_log_targets_trigger/ct_log_c', 'coco_observer_lin_targets_trigger/ct_lin_c']),
    Proof('targets_get_last_target', 'p_trig.c', 'h_tg', 'coco_observer_targets_get_last_target/ct_last', defines=['T_LAST']),
]
