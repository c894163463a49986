from .raw import *
PROOFS = VECTORS_ + RAW
BOUNDED = [Bounded('raw', 'b_raw.c', defines=['VF_P=14'], standin=True, cbmc=False, search_iters=3000000, search_secs=25,
                   bound='all raw functions (dimension <= 48) and all problems of the suites bbob, bbob-boxed, bbob-constrained, bbob-largescale, bbob-mixint, bbob-biobj (dimension <= 40, instances <= 60), 25 s')]

META = dict(
    title='Benchmark functions: nothing beats the optimum, values depend on x only',
    statement='For every point, every dimension and every function parameter, a raw benchmark function (f_*_raw) has the value of its documented formula: NaN if a coordinate is NaN, otherwise (finite coordinates) a number that is never below the value at the optimum, and exactly that value at the optimum. Evaluation modifies neither the point nor the function\'s parameters, and the value depends on the point only - not on earlier evaluations, on other problems or on which copy of the problem is used. Consequently, for every problem of the suites bbob, bbob-boxed, bbob-constrained (feasible points), bbob-largescale, bbob-mixint and bbob-biobj no evaluation returns a value below best_value (up to rounding) and best_parameter, where known, has best_value.',
    over=['inputs', 'configurations', 'histories'], text='all points (also far outside the region of interest and with NaN coordinates), all dimensions and function parameters, all orders of evaluation',
    why='Recorded values at a few points of a few instances say nothing about the other points, and runtimes are computed relative to best_value: one point below it falsifies all targets.',
    files=['src/f_*.c'],
    mechanism=[('raw benchmark functions', 'f_*_raw'), ('separable', 'f_sphere_raw, f_ellipsoid_raw, f_rastrigin_raw, f_bueche_rastrigin_raw, f_linear_slope_raw'), ('nonseparable', 'f_attractive_sector_raw, f_rosenbrock_raw, f_discus_raw, f_bent_cigar_raw, f_sharp_ridge_raw, f_different_powers_raw, f_schaffers_raw, f_griewank_rosenbrock_raw, f_katsuura_raw, f_gallagher_raw, f_step_ellipsoid_raw, f_lunacek_bi_rastrigin_raw')])
ASSUMPTIONS = ['libm by the axioms listed at the top of units/p_raw.c (sign, range, fixed points, NaN/inf behaviour of pow, exp, sin, cos, sqrt; log open)',
               'finite coordinates means |x_i| <= 1e300; parameters in the range the suites use (conditioning in [1, 1e7], facftrue 10, penalty scale >= 0)',
               'schwefel, schwefel_generalized, weierstrass: the minimum is transcendental, native comparison only; griewank_rosenbrock at its optimum, and the formulas themselves, natively only',
               'step ellipsoid, lunacek, linear slope (away from its optimum) and the any-point variants of griewank_rosenbrock and katsuura are proved in the thorough tier only (solver time); for step ellipsoid, lunacek and gallagher the entries of the rotation matrices are arbitrary and row pointers are not checked',
               'the best parameter/value of whole problems is compared natively']
