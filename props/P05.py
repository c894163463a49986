from .suite import *
PROOFS = CODEC + AT + [GET_PROBLEM, BY_NUMBERS, CODEC_LEMMA]
BOUNDED = [B_SUITE(5)]

META = dict(
    title='Problem indices and (function, dimension, instance) indices correspond 1:1',
    statement='For every suite, encoding function, dimension and instance indices gives a problem index below the number of problems, decoding gives indices in range, and the two are inverse to each other; the number of problems is the product of the three sizes. Looking a problem up by index, or by function, dimension and instance number, returns exactly the problem with those numbers (NULL when it is filtered out or not in the suite), and the number reported for an index is the one at that index. A position beyond the end of a list is an error and a problem index beyond the end decodes to zeros; neither ever reaches outside the lists.',
    over=['inputs', 'configurations'], text='all suite sizes, all indices (including out-of-range ones), all function/dimension/instance numbers',
    why='The mapping is arithmetic over three unbounded sizes; tests try a few indices of default suites.',
    files=['src/coco_suite.c'],
    mechanism=[('index arithmetic', 'coco_suite_encode_problem_index, coco_suite_decode_problem_index, coco_suite_get_number_of_problems'), ('lookup by position', 'coco_suite_get_function_from_function_index, coco_suite_get_dimension_from_dimension_index, coco_suite_get_instance_from_instance_index'), ('lookup of problems', 'coco_suite_get_problem, coco_suite_get_problem_by_function_dimension_instance')])
ASSUMPTIONS = ['the contracts state the index arithmetic as code-shaped size_t expressions; that these expressions are mutually inverse is the Coq lemma codec.v over the naturals, i.e. no wrap-around of the product of the three sizes',
               'coco_suite_get_problem_from_indices is represented by its contract']
