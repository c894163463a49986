from .mo import *
PROOFS = BIOBJ
BOUNDED = [Bounded('biobj', 'b_mo.c', defines=['VF_P=13'], standin=True, cbmc=False, search_iters=3000000, search_secs=25,
                   bound='random experiments of up to 150 operations on up to 2 problems of bbob-biobj, bbob-biobj-ext and bbob-biobj-mixint, dimensions 2-10, 25 s')]

META = dict(
    title='The bi-objective observer is transparent and logs the indicator faithfully',
    statement='Evaluating a problem observed by the bbob-biobj observer evaluates the observed problem exactly once at the point handed in, which is not modified, and returns its values unchanged; each evaluation is counted once, recommendations are not counted. Each solution evaluated is compared with the archive: if feasible and not weakly dominated it enters the archive and the output buffer once, and the solutions it dominates leave both, otherwise the archive and the indicator do not change and the solution is released. The indicator value is the reference value minus the hypervolume of the archive in the region of interest, plus the smallest distance to that region as long as the hypervolume is zero. A .dat record is written when the value reaches a target, a .tdat record at each evaluation number that triggers, a .rdat record for the first evaluation after a restart, a .mdat record for each recommendation; the archive files hold every solution that was nondominated when evaluated (all) or at the end (final), in the order of evaluations; the last evaluation is always on record.',
    over=['inputs', 'histories', 'configurations'], text='all points, all sequences of evaluations, restarts and recommendations, all dimensions and numbers of constraints, all modes of the observer, solutions fed from recorded data',
    why='The records depend on the whole history of an experiment; no test reads the files back.',
    files=['src/logger_biobj.c', 'src/observer_biobj.c', 'src/mo_utilities.c'],
    mechanism=[('evaluation', 'logger_biobj_evaluate'), ('archive update', 'logger_biobj_tree_update'), ('records', 'logger_biobj_output'), ('solution record', 'logger_biobj_node_create')])
ASSUMPTIONS = ['callees of the logger (evaluation of the observed problem, triggers, tree operations, fprintf) are recording stubs with arbitrary results; one node object stands for every node of the list in turn; the run-time asserts are disabled (NDEBUG)',
               'the arithmetic of the hypervolume contributions, the text of the records, file names, the archive output at the end and recommendations are compared natively only; zero evaluations are left out']
