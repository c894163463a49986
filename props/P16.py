from .noise import *
PROOFS = NOISES + [PEN] + SEEDS + LEGACY + RND
BOUNDED = [Bounded('noise', 'b_noise.c', defines=['VF_P=16'], standin=True, cbmc=False, search_iters=3000000, search_secs=20,
                   bound='random seeds and stream lengths (up to 3000 numbers), random problems of bbob-noisy, 12 evaluations each, 20 s')]

META = dict(
    title='Random numbers and noise: reproducible, in range, never below the optimum',
    statement='For every seed and every number of draws, the uniform numbers of both generators stay in their documented range ((0, 1] for the legacy generator, [0, 1) for coco_random_uniform) and normal numbers are finite; each stream depends only on its seed and the number of draws made from it. For every point, noise-free value and state of the noise seeds, a noisy evaluation evaluates the noise-free problem once at that point, records its value as the last noise-free value, draws a fixed number of variates from the noise seeds (which advance by one each and wrap within 1..10^9) and returns the documented function of value, variates and boundary penalty, never less than the optimal value; the penalty is zero inside the region of interest and never negative. Evaluations after a reset of the seeds give the same values again.',
    over=['inputs', 'histories'], text='all seeds, numbers of draws, points and noise-free values (contracts); random histories over problems of bbob-noisy (native harness)',
    why='Reproducibility of noisy and randomised experiments rests on it; tests look at a few draws of a few seeds.',
    files=['src/coco_random.c', 'src/suite_bbob_legacy_code.c', 'src/suite_bbob_noisy_utilities.c', 'src/transform_obj_gaussian_noise.c', 'src/transform_obj_uniform_noise.c', 'src/transform_obj_cauchy_noise.c'],
    mechanism=[('noise models', 'transform_obj_gaussian_noise_evaluate_function, transform_obj_uniform_noise_evaluate_function, transform_obj_cauchy_noise_evaluate_function'), ('boundary penalty', 'coco_boundary_handling'), ('noise seeds', 'coco_sample_uniform_noise, coco_sample_gaussian_noise, coco_reset_seeds'), ('legacy generator', 'bbob2009_unif, bbob2009_gauss'), ('random state', 'coco_random_new, coco_random_generate, coco_random_uniform, coco_random_normal')])
ASSUMPTIONS = ['exp, log, pow, sqrt, cos are represented by axioms (range and sign facts), floor by its definition on the range used; the distribution of the numbers is not specified',
               'the optimal value is within 10^4 of zero (bbob2009_compute_fopt gives at most 1000), the noise-free value between it and 10^80, the noise parameters in the ranges the suite uses',
               'array-wide invariants are proved for an arbitrary index; instances of the proved invariant at the indices read are assumed (generator tables)',
               'the numbers actually drawn are compared with independent generators by the native harness only']
