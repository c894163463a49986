from .logs import *
PROOFS = LOGS
BOUNDED = [Bounded('log', 'b_log.c', defines=['VF_P=11'], standin=True, cbmc=False, search_iters=3000000, search_secs=20,
                   bound='random experiments of up to 120 operations on up to 3 problems of bbob, bbob-constrained, bbob-mixint, bbob-noisy, dimensions 2-5, 20 s')]

META = dict(
    title='The bbob observer is transparent and records the run faithfully',
    statement='Evaluating a problem observed by the bbob observer evaluates the observed problem exactly once at the point handed in, which is not modified, and returns its value unchanged; each evaluation is counted once, and what the logger evaluates for itself is not counted. The logger keeps the running minimum of the logged value (noise-free, not below the optimum, plus constraint violations) and the point it belongs to. It writes a .dat record for the first evaluation and for each improvement that reaches a target, a .tdat record for each evaluation number that triggers, a .rdat record for the first evaluation after a restart, a .mdat record for a recommendation that reaches a target; each shows the evaluation counts, values and point at that moment. When the problem is freed the last evaluation is on record, every file is closed exactly once and the observer can observe the next problem.',
    over=['inputs', 'histories', 'configurations'], text='all points and values including NaN and inf, all sequences of evaluations, restarts and recommendations, all dimensions and numbers of constraints, all observer options',
    why='A run makes arbitrarily many evaluations of arbitrary values; the example experiments only exercise a few runs, and no test reads the files back.',
    files=['src/logger_bbob.c', 'src/coco_observer.c', 'src/observer_bbob.c'],
    mechanism=[('evaluation', 'logger_bbob_evaluate'), ('recommendation', 'logger_bbob_recommend'), ('final records', 'logger_bbob_free'), ('record format', 'logger_bbob_output')])
ASSUMPTIONS = ['callees of the logger (evaluation of the observed problem, triggers, output of a record, opening of files, fclose, fprintf) are represented by recording stubs with arbitrary results; the run-time asserts are disabled (NDEBUG)',
               'the best value so far and the optimal value are finite; the record text, the file names, the .info file and the sum of constraint violations are compared natively only']
