"""Proofs of the option-string readers (units/p_str.c)."""
from vf.core import Proof, Bounded
U, S = 'coco_utilities.c', 'coco_string.c'


def P(name, sel, enforce, **k):
    return Proof(name, 'p_str.c', 'h', enforce, k.pop('replace', []), k.pop('loops', None), defines=[sel], **k)


LAST = '@{last_first_idx}'
FIND = P('coco_strfind', 'S_FIND', 'coco_strfind/ct_strfind', loops={S: {'coco_strfind': [
    dict(assigns='@{i}, @{j}, vfg_wj', inv=['@{i} <= %s + 1' % LAST, 'vfg_K < @{i} ==> (vfg_wj < vfg_ls && @1[vfg_K + vfg_wj] != @2[vfg_wj])'], dec=LAST + ' + 1 - @{i}', ghost='if (@{i} == vfg_K) vfg_wj = 0;', shape='any'),
    dict(assigns='@{j}, vfg_wj', inv=['@{j} <= vfg_ls', '@{j} > 0 ==> @1[@{i}] == @2[0]', 'vfg_J < @{j} ==> @1[@{i} + vfg_J] == @2[vfg_J]',
         'vfg_K < @{i} ==> (vfg_wj < vfg_ls && @1[vfg_K + vfg_wj] != @2[vfg_wj])'], dec='vfg_ls - @{j}', ghost='if (@{i} == vfg_K) vfg_wj = @{j};', shape='any')]}})
WS = lambda: dict(shape='any', assigns='@{i2}', inv=['@{i2} > COLON || vfg_r1 < 0', '@{i2} <= (long)vfg_lo', 'vfg_r1 < 0 ==> @{i2} == vfg_r0', '(long)vfg_K > COLON && (long)vfg_K < @{i2} && vfg_r1 >= 0 ==> SP(@1[vfg_K])'], dec='(long)vfg_lo - @{i2}')
RF = ['coco_strfind/ct_strfind_use']
READ = [
    P('coco_options_read', 'S_READ', 'coco_options_read/ct_read', replace=RF, loops={U: {'coco_options_read': [WS()]}}),
    P('coco_options_read_string', 'S_STRING', 'coco_options_read_string/ct_read_string', replace=RF, loops={U: {'coco_options_read_string': [WS()]}}),
    P('coco_options_read_values', 'S_VALUES', 'coco_options_read_values/ct_read_values', unwind=8, replace=RF, loops={U: {'coco_options_read_values': [
        dict(shape='any', assigns='@{i}, @{i2}, __CPROVER_object_upto(@3, vfg_lo + 1)', dec='(long)vfg_lo - @{i2} - @{i}',
             inv=['@{i} >= 0 && @{i} <= (long)vfg_lo && @{i2} > COLON && COLON >= 0 && @{i2} <= (long)vfg_lo && @{i2} + @{i} <= (long)vfg_lo', '(long)vfg_K < @{i} ==> (@3[vfg_K] != 0 && !SP(@3[vfg_K]) && !AL(@3[vfg_K]))'])]}}),
]
NUM = [
    P('coco_count_numbers', 'S_COUNT', 'coco_count_numbers/ct_count', loops={U: {'coco_count_numbers': [dict(shape='any', assigns='@{count}', inv=['@{count} <= @2', 'vfg_K < @{count} ==> @1[vfg_K] != 0'], dec='@2 - @{count}')]}}),
    P('coco_double_to_int', 'S_INT', 'coco_double_to_int/ct_to_int'),
    P('coco_double_to_size_t', 'S_SIZE', 'coco_double_to_size_t/ct_to_size'),
]
