from .suite import *
PROOFS = [NEXT_ITEM] + STEPS + NEXT_PROBLEM
BOUNDED = [B_SUITE(4)]

META = dict(
    title='Suite iteration visits every selected problem once, in order',
    statement='Repeatedly asking a suite for its next problem yields exactly the selected (dimension, function, instance) combinations, each once, instance running fastest and dimension slowest, in the order of the suite; combinations whose dimension, function or instance was filtered out are skipped. After the last one NULL is returned. Each problem is observed by the given observer when there is one, the previous problem is freed first, and the problem reports its suite and its position in the suite.',
    over=['inputs', 'histories', 'configurations'], text='all suites (any numbers of dimensions, functions, instances), all patterns of filtered-out entries, all positions of the iteration, with and without observer',
    why='Tests iterate over a few default suites; the claim is about every pattern of filtered entries (runs at the start, the end, everywhere) and every step of the iteration.',
    files=['src/coco_suite.c'],
    mechanism=[('advance to the next non-filtered entry', 'coco_suite_is_next_item_found'), ('carry between the three counters', 'coco_suite_is_next_instance_found, coco_suite_is_next_function_found, coco_suite_is_next_dimension_found'), ('iteration step', 'coco_suite_get_next_problem')])
ASSUMPTIONS = ['coco_suite_get_problem_from_indices, coco_problem_free, coco_problem_add_observer and the time string are represented by contracts (a fresh problem or NULL; no effect on the suite\'s index lists)',
               'the step contracts compose to the whole iteration by induction over the calls (each call moves to the lexicographic successor among the selected triples)']
