from vf.core import Proof, Bounded, Lemma
S = 'coco_suite.c'
_ni = lambda lo: dict(shape='any', assigns='*@3', inv=['%s <= *@3 && *@3 < (long)@2 - 1' % lo, '(%s < (long)vfg_K && (long)vfg_K <= *@3) ==> @1[vfg_K] == 0' % lo], dec='(long)@2 - *@3')
L_NEXT = {'coco_suite_is_next_item_found': [dict(_ni('vfg_from'), pre='vfg_from = *@3;'), _ni('-1L')]}
NEXT_ITEM = Proof('is_next_item_found', 'p_suite.c', 'h_next_item', 'coco_suite_is_next_item_found/ct_next_item', [], {S: L_NEXT})
R_ITEM = ['coco_suite_is_next_item_found/ct_next_item']
STEPS = [Proof('is_next_%s_found' % n, 'p_suite.c', 'h_step', 'coco_suite_is_next_%s_found/ct_next_%s' % (n, n), R_ITEM, defines=['F_' + d])
         for n, d in (('instance', 'INST'), ('function', 'FUN'), ('dimension', 'DIM'))]
NEXT_PROBLEM = [Proof('get_next_problem' + v[0], 'p_suite.c', 'h_next_problem', 'coco_suite_get_next_problem/ct_next_problem',
                     ['coco_suite_is_next_%s_found/ct_next_%s' % (n, n) for n in ('instance', 'function', 'dimension')] +
                     ['coco_suite_get_problem_from_indices/ct_from_indices', 'coco_problem_free/ct_problem_free',
                      'coco_problem_add_observer/ct_add_observer', 'coco_current_time_get_string/ct_time_string'], defines=v[1])
                for v in (('_obs', ['OBS']), ('_first', []))]
U = 'coco_utilities.c'
CODEC = [Proof(n, 'p_suite.c', 'h_codec', '%s/%s' % (f, c), defines=['F_' + d], timeout=60) for n, f, c, d in (
    ('decode', 'coco_suite_decode_problem_index', 'ct_decode', 'DEC'), ('encode', 'coco_suite_encode_problem_index', 'ct_encode', 'ENC'),
    ('number_of_problems', 'coco_suite_get_number_of_problems', 'ct_number_of_problems', 'NUM'))]
AT = [Proof('at_' + n, 'p_suite.c', 'h_at', 'coco_suite_get_%s_from_%s_index/ct_%s_at' % (n, n, c), defines=['F_' + c.upper()])
      for n, c in (('function', 'fun'), ('dimension', 'dim'), ('instance', 'inst'))]
GET_PROBLEM = Proof('get_problem', 'p_suite.c', 'h_get_problem', 'coco_suite_get_problem/ct_get_problem',
                    ['coco_suite_decode_problem_index/ct_decode', 'coco_suite_get_problem_from_indices/ct_from_indices_rec'], timeout=60)


def _find(what, k, var):
    return dict(assigns='@i, @{found}, @{%s}' % var, inv=['@i <= @1->number_of_%ss' % what, '@{found} == 0', '%s < @i ==> @1->%ss[%s] != @%d' % (k, what, k, {'function': 2, 'dimension': 3, 'instance': 4}[what])],
                dec='@1->number_of_%ss - @i' % what)


L_BY = {'coco_suite_get_problem_by_function_dimension_instance': [_find('function', 'vfg_K1', 'function_idx'), _find('dimension', 'vfg_K2', 'dimension_idx'), _find('instance', 'vfg_K3', 'instance_idx')]}
BY_NUMBERS = Proof('get_problem_by_function_dimension_instance', 'p_suite.c', 'h_by_numbers', 'coco_suite_get_problem_by_function_dimension_instance/ct_by_numbers',
                   ['coco_suite_get_problem_from_indices/ct_from_indices'], {S: L_BY})
COUNT = Proof('count_numbers', 'p_suite.c', 'h_count', 'coco_count_numbers/ct_count_numbers', [],
              {U: {'coco_count_numbers': [dict(shape='any', assigns='@{count}', inv=['@{count} <= @2', 'vfg_J < @{count} ==> @1[vfg_J] != 0'], dec='@2 - @{count}')]}})
_kf = '((LISTED_KEEP(@1[vfg_K], @3) && vfg_w < @{count}) || (LISTED_DROP(@1[vfg_K], @3) && vfg_cnt == @{count}))'
L_FI = {'coco_suite_filter_indices': [
    dict(shape='any', assigns='@{i}, @{j}, @{found}, vfg_w, __CPROVER_object_whole(@1)', pre='vfg_cnt = @{count};',
         inv=['@{i} >= 1 && @{i} <= @2 + 1', 'vfg_K + 1 >= @{i} ==> @1[vfg_K] == vfg_oldK', 'vfg_K + 1 < @{i} ==> ' + _kf], dec='@2 + 1 - @{i}'),
    dict(shape='any', assigns='@{j}, @{found}, vfg_w', ghost='if (@{i} == vfg_K + 1) vfg_w = @{j};',
         inv=['@{j} <= @{count}', '@{found} == 0', 'vfg_J < @{j} ==> @3[vfg_J] != @{i}', 'vfg_K + 1 < @{i} ==> ' + _kf], dec='@{count} - @{j}')]}
FILTER_INDICES = Proof('filter_indices', 'p_suite.c', 'h_filter_indices', 'coco_suite_filter_indices/ct_filter_indices', ['coco_count_numbers/ct_count_numbers'], {S: L_FI})
_kd = '((DIM_KEEP(@1, @2) && vfg_w < @{count}) || (DIM_DROP(@1, @2) && vfg_cnt == @{count}))'
L_FD = {'coco_suite_filter_dimensions': [
    dict(shape='any', assigns='@{i}, @{j}, @{found}, vfg_w, __CPROVER_object_whole(@1->dimensions)', pre='vfg_cnt = @{count};',
         inv=['@{i} <= @1->number_of_dimensions', 'vfg_K >= @{i} ==> @1->dimensions[vfg_K] == vfg_oldK', 'vfg_K < @{i} ==> ' + _kd], dec='@1->number_of_dimensions - @{i}'),
    dict(shape='any', assigns='@{j}, @{found}, vfg_w', ghost='if (@{i} == vfg_K && @1->dimensions[@{i}] == @2[@{j}]) vfg_w = @{j};',
         inv=['@{j} <= @{count}', '@{found} == 0 || @{found} == 1', 'vfg_K < @{i} ==> ' + _kd,
              '(@{i} == vfg_K && @{found} == 0 && vfg_J < @{j}) ==> @2[vfg_J] != vfg_oldK', '(@{i} == vfg_K && @{found} == 1) ==> (vfg_w < @{j} && @2[vfg_w] == vfg_oldK)'], dec='@{count} - @{j}')]}
FILTER_DIMENSIONS = Proof('filter_dimensions', 'p_suite.c', 'h_filter_dimensions', 'coco_suite_filter_dimensions/ct_filter_dimensions', ['coco_count_numbers/ct_count_numbers'], {S: L_FD})
L_SI = {'coco_suite_set_instance': [dict(assigns='@i, __CPROVER_object_whole(@1->instances)', inv=['@i <= @1->number_of_instances', 'vfg_J < @i ==> @1->instances[vfg_J] == @2[vfg_J]'], dec='@1->number_of_instances - @i')]}
SET_INSTANCE = Proof('set_instance', 'p_suite.c', 'h_set_instance', 'coco_suite_set_instance/ct_set_instance', ['coco_count_numbers/ct_count_numbers', 'coco_allocate_vector_size_t/ct_alloc_size_t'], {S: L_SI})
CODEC_LEMMA = Lemma('codec_bijection', 'codec.v', ['dec_enc', 'enc_range', 'enc_dec', 'dec_range'])


def B_SUITE(v):
    return Bounded('suite', 'b_suite.c', defines=['VF_P=%d' % v], cbmc=False, standin=True, search_iters=4000, search_secs=20,
                   bound='random suites (toy, bbob, bbob-boxed, bbob-biobj, bbob-noisy, bbob-constrained), random instance lists and filters; real problem constructors',
                   functions=['coco_suite', 'coco_suite_get_next_problem', 'coco_suite_get_problem', 'coco_suite_get_problem_by_function_dimension_instance'])
