from .mo import *
PROOFS = MOS
BOUNDED = [Bounded('archive', 'b_mo.c', defines=['VF_P=12'], standin=True, cbmc=False, search_iters=3000000, search_secs=20,
                   bound='random sequences of up to 200 solutions per archive (ties, values on the 5e-13 grid, outside the region of interest), bbob-biobj f1-f55, dimensions 2 and 3, 20 s')]

META = dict(
    title='The bi-objective archive holds exactly the nondominated solutions',
    statement='For every sequence of solutions added to a bi-objective archive, the archive holds exactly the solutions that no other added solution weakly dominates (of equal ones the first), together with the two extreme solutions: a solution enters exactly when no archived solution weakly dominates it, those it dominates are removed and no others, and adding reports whether it entered. Objective values are normalised to the ideal and nadir points, never below zero, and no solution may dominate an extreme one; two values closer than 1e-13 are equal. Dominance, membership in the region of interest [0,1]^2 and the distance to it are those of the definition, for every vector. The number of solutions and the hypervolume are those of the solutions held, and iterating returns the text of each solution once, the extremes first, then the empty text.',
    over=['inputs', 'histories'], text='all sequences of additions and queries, all objective values including ties, values outside the region of interest and better than the ideal point; vectors of any number of objectives for the dominance relation',
    why='Which solutions stay depends on the whole history of additions; the tests replay one recorded archive.',
    files=['src/coco_archive.c', 'src/mo_utilities.c', 'src/mo_avl_tree.c'],
    mechanism=[('adding a solution', 'coco_archive_add_solution'), ('dominance', 'mo_get_dominance'), ('normalisation', 'mo_normalize'), ('region of interest', 'mo_is_within_ROI'), ('hypervolume', 'coco_archive_update'), ('iteration', 'coco_archive_get_next_solution_text')])
ASSUMPTIONS = ['in the proof of coco_archive_add_solution the AVL tree operations are recording stubs: one node object stands for every node of the list in turn, and the search returns an arbitrary node; that the search returns the right neighbour, that the tree keeps its order and the value of the hypervolume are decided by the bounded stand-in only',
               'in the proof of coco_archive_get_next_solution_text the list consists of arbitrary nodes of which at most two, the extremes, have to be skipped; bringing the archive up to date is an assumed contract (stub)',
               'almost-equality is an uninterpreted symmetric relation in the proof of mo_get_dominance; finite values and nadir above ideal in the proof of mo_normalize']
