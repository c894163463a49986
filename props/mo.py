from vf.core import Proof, Bounded
MO = 'mo_utilities.c'
def P(name, sel, enforce, **k):
    return Proof(name, 'p_mo.c', 'h', enforce, k.pop('replace', []), k.pop('loops', None), defines=[sel] + k.pop('defs', []), **k)
NB = 'logger_biobj.c'
MOS = [
    P('coco_double_almost_equal', 'M_EQ', 'coco_double_almost_equal/ct_eq'),
    P('mo_get_dominance', 'M_DOM', 'mo_get_dominance/ct_dom', calls={'coco_double_almost_equal': 'vf_eq'}, loops={MO: {'mo_get_dominance': [
        dict(assigns='@i, @{flag1}, @{flag2}, vfg_w1, vfg_w2', dec='@3 - @i', inv=['@i <= @3', '@{flag1} == 0 || @{flag1} == 1', '@{flag2} == 0 || @{flag2} == 1',
             '@{flag1} ==> vfg_w1', '@{flag2} ==> vfg_w2', '(!@{flag1} && vfg_K < @i) ==> !vfg_lt1', '(!@{flag2} && vfg_K < @i) ==> !vfg_lt2'],
             ghost='if (LT(@1[@i], @2[@i])) vfg_w1 = 1; if (LT(@2[@i], @1[@i])) vfg_w2 = 1;')]}}),
    P('mo_is_within_ROI', 'M_ROI', 'mo_is_within_ROI/ct_roi', loops={MO: {'mo_is_within_ROI': [
        dict(assigns='@i, @{within}, vfg_wr', dec='@2 - @i', inv=['@i <= @2', '@{within} == 0 || @{within} == 1', '(@{within} && vfg_K < @i) ==> IN(@1[vfg_K])', '!@{within} ==> (vfg_wr < @2 && !IN(@1[vfg_wr]))'],
             ghost='if (!IN(@1[@i])) vfg_wr = @i;')]}}),
    P('mo_get_distance_to_ROI', 'M_DIST', 'mo_get_distance_to_ROI/ct_dist', calls={'mo_is_within_ROI': 'vf_roi'}),
    P('mo_normalize', 'M_NORM', None, functions=['mo_normalize'], nodfcc=True, unwind=4),
    P('compare_archive', 'M_CMP', 'coco_archive_compare_by_last_objective/ct_cmp', defs=['T=coco_archive_avl_item_t', 'F=coco_archive_compare_by_last_objective']),
    P('compare_by_last_objective', 'M_CMP', 'avl_tree_compare_by_last_objective/ct_cmp', defs=['T=logger_biobj_avl_item_t', 'F=avl_tree_compare_by_last_objective']),
    P('compare_by_eval_number', 'M_CMP', 'avl_tree_compare_by_eval_number/ct_cmp', defs=['T=logger_biobj_avl_item_t', 'F=avl_tree_compare_by_eval_number', 'BY_EVAL']),
]
TCALLS = {'mo_get_dominance': 'vf_dom', 'avl_item_search_right': 'vf_search', 'avl_node_delete': 'vf_ndel', 'avl_item_insert': 'vf_ins'}
TINV = ['vfg_ins == 0 && vfg_freed == 0 && vfg_pend == 0 && vfg_bpend == 0', '@{next_node} == NULL || @{next_node} == vfg_node', 'vfg_calls > 0 ==> (vfg_lastdom == 1 || (vfg_lastdom == 0 && vfg_calls == 1 && vfg_found))',
        'vfg_calls > 0 ==> ((@{next_node} == NULL) == (vfg_last_end != 0))', 'vfg_calls == 0 ==> (!vfg_found && @{next_node} == vfg_head)']
TASS = '@{node}, @{next_node}, @{dominance}, vfg_calls, vfg_pend, vfg_bpend, vfg_lastdom, vfg_last_end, vfg_node->next'
MOS += [
    P('coco_archive_add_solution', 'M_ARCH', 'coco_archive_add_solution/ct_add', defs=['ITEM=coco_archive_avl_item_t', 'VF_CANFAIL=1'], calls=dict(TCALLS, coco_archive_node_item_create='vf_mk', coco_archive_node_item_free='vf_ifree'),
      loops={'coco_archive.c': {'coco_archive_add_solution': [dict(shape='any', assigns=TASS, inv=TINV)]}}),
]
MOS += [
    P('archive_next_text', 'M_NEXT', None, functions=['coco_archive_get_next_solution_text'], nodfcc=True, unwind=6, calls={'coco_archive_update': 'vf_update'}),
]
TU = 'logger_biobj_tree_update'
def TREE(name, defs, **k):
    return P(name, 'M_TREE', TU + '/ct_tree', defs=['ITEM=logger_biobj_avl_item_t', 'VF_CANFAIL=0'] + defs, calls=dict(TCALLS, avl_item_delete='vf_bdel', logger_biobj_node_free='vf_ifree', strcmp='vf_strcmp0'),
      preunwind=','.join('%s.%d:2' % (TU, k) for k in (0, 1, 3, 4, 5, 6)),
      loops={NB: {TU: [None, dict(shape='any', assigns=TASS + ', @{i}, vfg_prev, @1->indicators[0]->current_value', inv=TINV)] + [None] * 5}}, **k)
BIOBJ = [
    TREE('logger_biobj_tree_update', []),
    P('logger_biobj_node_create', 'M_NODE', 'logger_biobj_node_create/ct_node', calls={'mo_normalize': 'vf_norm', 'mo_is_within_ROI': 'vf_roi'},
      loops={NB: {'logger_biobj_node_create': [
        dict(assigns='@i, __CPROVER_object_whole(@{item}->x)', inv=['@i <= @6', 'vfg_K < @i ==> VF_SAME(@{item}->x[vfg_K], vfg_xK)'], dec='@6 - @i'),
        dict(assigns='@i, __CPROVER_object_whole(@{item}->y)', inv=['@i <= @7', 'vfg_J < @i ==> VF_SAME(@{item}->y[vfg_J], vfg_yJ)'], dec='@7 - @i'),
        None,
        dict(assigns='@i, @{sum_constraints}, vfg_feas', inv=['@i <= @8', '@{sum_constraints} >= 0', '(@{sum_constraints} > 0) == (vfg_feas == 0)'], dec='@8 - @i', ghost='if (@4[@i] > 0) vfg_feas = 0;')]}}),
    P('logger_biobj_evaluate', 'M_EVAL', 'logger_biobj_evaluate/ct_eval', fptrs={'evaluate_constraint': ['stub_cons']},
      calls={'coco_evaluate_function': 'vf_eval', 'logger_biobj_node_create': 'vf_create', 'logger_biobj_tree_update': 'vf_update', 'logger_biobj_tree_output': 'vf_treeout', 'avl_tree_purge': 'vf_purge', 'logger_biobj_output': 'vf_out', 'logger_biobj_node_free': 'vf_nfree'}),
    P('logger_biobj_output', 'M_OUT', 'logger_biobj_output/ct_out', unwind=3, preunwind='logger_biobj_output.1:2', loops={NB: {'logger_biobj_output': [None,
        dict(assigns='@i, vfg_rd, vfg_ret_, @1->indicators[0]->evaluation_logged', start=None, inv=['@i > @1->previous_evaluations && @i <= @1->num_func_evaluations', 'vfg_et == 0 && vfg_tdat == 0'], dec='@1->num_func_evaluations - @i')]}},
      calls={'coco_observer_targets_trigger': 'vf_ttrig', 'coco_observer_evaluations_trigger': 'vf_etrig', 'mo_get_distance_to_ROI': 'vf_dist', 'coco_observer_targets_get_last_target': 'vf_last', 'strcmp': 'vf_strcmp'}),
]
