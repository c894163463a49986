from .rel import *
PROOFS = REL + TRANS + SUITE + OBS
BOUNDED = [Bounded('lifecycles', 'b_mem.c', defines=['VF_P=18'], standin=True, cbmc=False, search_iters=3000000, search_secs=25,
                   bound='random life cycles over ten suites and their observers (up to 6 problems, 12 evaluations each), archives of up to 40 solutions, chains of up to 4 transformations; 25 s')]

META = dict(
    title='What is owned is released exactly once, in whatever order the user works',
    statement='Releasing a problem, suite, observer, or archive releases every block it owns exactly once and nothing else: a wrapper releases the problem it wraps, a composite each of its components, a suite the problem it handed out last and its data - each through its own release function, called once, before what that function needs is gone. Taking an observer off releases the wrapper only. The suite releases the previous problem exactly when it hands out the next one. In every order of use - observer released before or after the suite, problems released early, loops left at any point, observers added and taken off repeatedly - nothing is used after its release, nothing is released twice, every file is closed, and when the user has released what is his nothing is left.',
    over=['inputs', 'histories'], text='all combinations of owned and missing parts (contracts); random life cycles under ASan with block and file counters (native harness)',
    why='Experiments run for days over thousands of problems; tests release in one order and do not look for leaks or use after release.',
    files=['src/coco_problem.c', 'src/coco_suite.c', 'src/coco_observer.c', 'src/coco_archive.c', 'src/c_linear.c', 'src/logger_bbob.c', 'src/logger_biobj.c', 'src/observer_bbob.c', 'src/observer_biobj.c'],
    mechanism=[('problems', 'coco_problem_free, coco_problem_transformed_free, coco_problem_transformed_free_data, coco_problem_stacked_free'), ('suites', 'coco_suite_free, coco_suite_get_next_problem'), ('observers', 'coco_observer_free, coco_problem_remove_observer'), ('triggers', 'coco_observer_targets_free, coco_observer_evaluations_free'), ('data of transformations', 'c_linear_gradient_free, transform_vars_affine_free, transform_vars_shift_free, transform_vars_x_hat_generic_free, transform_vars_z_hat_free, transform_vars_permutation_free')])
ASSUMPTIONS = ['what an object owns are the blocks its fields point to; that these are distinct and allocated is the constructors\' part, covered by the native harness',
               'the release functions of loggers, observers\' and suites\' data and of block rotations are covered by the native harness only',
               'run-time asserts are disabled (NDEBUG)']
