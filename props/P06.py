from .suite import *
PROOFS = [COUNT, FILTER_INDICES, FILTER_DIMENSIONS, SET_INSTANCE]
BOUNDED = [B_SUITE(6)]

META = dict(
    title='Suite options keep exactly the selected entries, in place',
    statement='Selecting functions, dimensions or instances of a suite by indices (function_indices, dimension_indices, instance_indices) or dimensions by number keeps an entry if and only if it is selected, marks the others as filtered out and never reorders, changes or drops an entry; the instance list given by the user becomes the instance list of the suite in the given order, a year selects that year\'s instances, and of year and instances the one that comes first is used. Ranges, open ranges, spacing and the order of the options do not matter; when dimensions and dimension_indices are both given, the one that comes first in the options is used.',
    over=['inputs', 'configurations'], text='all zero-terminated selection lists, all list lengths, all suite sizes; option strings in all orders',
    why='Which entries are selected, in which order and how often, is unbounded; tests use a handful of option strings.',
    files=['src/coco_suite.c', 'src/coco_utilities.c'],
    mechanism=[('filtering by index', 'coco_suite_filter_indices'), ('filtering by dimension', 'coco_suite_filter_dimensions'), ('instances', 'coco_suite_set_instance'), ('length of a zero-terminated list', 'coco_count_numbers'), ('options', 'coco_suite')])
ASSUMPTIONS = ['the selection list handed to the filters is zero-terminated within COCO_MAX_INSTANCES entries (what coco_string_parse_ranges produces)',
               'parsing of the option string in coco_suite() is covered by the native harness only']
