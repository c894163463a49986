from .trig import *
PROOFS = TRIG
BOUNDED = [Bounded('trig', 'b_trig.c', standin=True, cbmc=False, search_iters=3000000, search_secs=12,
                   bound='consecutive evaluation numbers up to 150000, sequences of up to 60 values, 12 s')]

META = dict(
    title='Logging triggers fire exactly at the documented evaluations and targets',
    statement='The evaluation trigger fires at consecutive evaluation numbers exactly when the number is floor(10^(k/n)) for some k or dimension * base * 10^j for some base value and j; no such number is left out or reported twice, both sequences advance on every call, and a number that does not fire changes nothing. The target trigger fires exactly when the value reaches a logarithmic target (10^(k/n), the precision, 0, and mirrored for negative values) or a linear target (multiple of the precision) below every one reached before; otherwise its state stays, and the last target reported is the smallest one reached.',
    over=['inputs', 'histories'], text='all evaluation numbers, all sequences of values, all numbers of triggers, base values, dimensions and precisions',
    why='The triggers carry state over unboundedly many evaluations; the unit tests follow a few short sequences.',
    files=['src/coco_observer.c', 'src/coco_utilities.c'],
    mechanism=[('first evaluation trigger', 'coco_observer_evaluations_trigger_first'), ('second evaluation trigger', 'coco_observer_evaluations_trigger_second'), ('both', 'coco_observer_evaluations_trigger'), ('logarithmic targets', 'coco_observer_log_targets_trigger'), ('linear targets', 'coco_observer_lin_targets_trigger'), ('targets', 'coco_observer_targets_trigger')])
ASSUMPTIONS = ['pow, log10, floor, ceil, coco_double_to_size_t and coco_double_round_up_with_precision are uninterpreted in the proofs (equal arguments give equal results); which numbers and targets they denote is compared natively',
               'the exponent of the first trigger stays below 1e9; termination of its search loop is not proved (pow is uninterpreted)',
               'log10(value) * number of targets is representable as int (no overflow check in coco_observer_log_targets_trigger)']
