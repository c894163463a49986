import importlib, json, os, sys, time
from . import core
from .core import VERIF, Ctx, run_proof, run_bounded, parallel


def short(r, n=300):
    ls = [l for l in r.split('\n') if 'error' in l.lower()] or r.split('\n')
    return (ls[0] if r.startswith(('goto', 'cbmc')) else r.replace('\n', ' '))[:n]


def known_findings(prop):
    out = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            if l.startswith('KNOWN-FINDING: property=%s ' % prop):
                out.append(l.strip())
    return out


def main(argv):
    prop = argv[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in argv:
        tier = argv[argv.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    verbose = '-v' in argv
    only = argv[argv.index('--only') + 1] if '--only' in argv else None
    mod = importlib.import_module('props.' + prop)
    proofs, bounded = list(mod.PROOFS), list(mod.BOUNDED)
    if not only and tier != 'thorough':
        proofs = [p for p in proofs if not getattr(p, 'deep', False)]
    if only:
        proofs = [p for p in proofs if p.name == only]
        bounded = [b for b in bounded if b.name == only]
    t0 = time.time()
    ctx = Ctx(prop, tier, seed)
    try:
        ctx.prepare()
        code = decide(ctx, mod, prop, tier, seed, proofs, bounded, verbose, t0, only)
    finally:
        if '--keep' in argv:
            print('scratch', ctx.tmp)
        else:
            ctx.cleanup()
    return code


def decide(ctx, mod, prop, tier, seed, proofs, bounded, verbose, t0, only):
    standins = [b for b in bounded if b.standin or tier == 'thorough' or only]
    jobs = [('p', p) for p in proofs] + [('b', b) for b in standins]
    # long jobs first
    jobs.sort(key=lambda j: -j[1].timeout)
    def go(j):
        if j[0] == 'p':
            return run_proof(ctx, j[1])
        return run_bounded(ctx, j[1], search=(tier == 'thorough' or bool(only) or not j[1].cbmc))
    outs = parallel(go, jobs)
    po = [o for (k, _), o in zip(jobs, outs) if k == 'p']
    bo = {o.name: o for (k, _), o in zip(jobs, outs) if k == 'b'}
    failed = [o for o in po if o.kind == 'failed']
    unatt = [o for o in po if o.kind == 'unattached']
    if verbose:
        for o in po:
            print('proof %-34s %-10s %4d/%4d %6.1fs %-12s reach=%d %s' % (o.name, o.kind, o.discharged, o.obligations, o.solver_s, o.backend,
                                                               len(o.reach), short(o.reason, 700) if o.kind != 'proved' else ''))
    need = bool(failed or unatt) or any(o.kind != 'held' for o in bo.values())
    if need:
        rest = [b for b in bounded if b.name not in bo or not (bo[b.name].kind == 'violated' or bo[b.name].searched)]
        for o in parallel(lambda b: run_bounded(ctx, b), rest, 4):
            bo[o.name] = o
    if verbose:
        for o in bo.values():
            print('bounded %-32s %-12s %4d/%4d %6.1fs %s | %s | %s' % (o.name, o.kind, o.discharged, o.obligations, o.secs,
                                                                   short(o.reason, 700), o.searched[:200], o.replayed[:300]))
    viol = [o for o in bo.values() if o.kind == 'violated']
    rc, line = 0, ''
    if viol:
        rc = 1
        line = 'VIOLATION property=%s replay=%s' % (prop, viol[0].replay)
        print('failed: %s' % viol[0].msg)
    elif failed:
        rc = 1
        os.makedirs(ctx.repdir, exist_ok=True)
        path = os.path.join(ctx.repdir, '%s_obligations.txt' % prop)
        with open(path, 'w') as h:
            for o in failed:
                h.write('proof unit %s (%s)\n' % (o.name, o.cmd))
                for r in o.failed:
                    h.write('  FAILED OBLIGATION %s: %s\n    %s\n' % (r['property'], r['description'], json.dumps(r.get('sourceLocation', {}))))
            for o in bo.values():
                h.write('counterexample search %s: %s %s %s %s\n' % (o.name, o.kind, o.reason, o.searched, o.replayed))
        line = 'VIOLATION property=%s replay=%s no-failing-input-found' % (prop, path)
        for o in failed:
            print('failed obligation in %s: %s' % (o.name, o.reason[:400]))
    elif unatt:
        concl = [o for o in bo.values() if o.kind == 'held' or o.searched.startswith('VF_OK')]
        if not concl:
            rc = 2
            print('UNDECIDED property=%s: %s' % (prop, '; '.join(short(o.reason) for o in unatt)))
        else:
            print('note: %d of %d proof units do not attach to the code as it is now (%s); decided by the bounded stand-ins only' % (
                len(unatt), len(po), '; '.join('%s: %s' % (o.name, short(o.reason, 160)) for o in unatt)))
    bad_standin = [o for o in bo.values() if o.kind == 'inconclusive' and not o.searched.startswith('VF_OK')]
    if rc == 0 and bad_standin and not po:
        rc = 2
        print('UNDECIDED property=%s: %s' % (prop, '; '.join(short(o.reason) for o in bad_standin)))
    for k in known_findings(prop):
        print(k)
    # evidence
    allp = bool(po) and not unatt and not failed
    cov = {
        'obligations': sum(o.obligations for o in po),
        'discharged': sum(o.discharged for o in po),
        'checker_cmd': (po[0].steps[0] + ' ; ' + po[0].cmd) if po and po[0].steps else 'cbmc 6.11 (goto-cc, goto-instrument --dfcc, cbmc)',
        'trusted_base': ['CBMC 6.11 C front end, DFCC instrumentation and SAT back end', 'vf/csrc.py loop-contract splicing'] + list(getattr(mod, 'TRUSTED', [])),
        'functions_under_contract': sorted({f for p in proofs for f in p.functions}),
        'units': [dict(name=o.name, result=o.kind, obligations=o.obligations, discharged=o.discharged, solver_s=round(o.solver_s, 2),
                       backend=o.backend, non_vacuity=['%s: %s' % (d, 'reachable' if s == 'FAILURE' else s) for d, s in o.reach],
                       reason=o.reason[:600] if o.kind != 'proved' else '') for o in po],
        'bounded_standins': [dict(name=o.name, result=o.kind, bound=next(b.bound for b in bounded if b.name == o.name),
                                  functions=next(b.functions for b in bounded if b.name == o.name),
                                  assertions=o.obligations, held=o.discharged, solver_s=round(o.secs, 2), search=o.searched[:200],
                                  note=o.reason[:400], label='bounded, not counted as proved') for o in bo.values()],
        'solver_time_s': round(sum(o.solver_s for o in po), 2),
    }
    if not allp:
        cov['explanation'] = 'not every proof unit was discharged on this run; see units'
    ev = dict(property=prop, tier=tier if tier in ('quick', 'thorough') else 'quick', seed=seed, level='proof' if allp else 'other', coverage=cov,
              assumptions=list(getattr(mod, 'ASSUMPTIONS', [])) + COMMON_ASSUMPTIONS, wall_s=round(time.time() - t0, 2), violations=1 if rc == 1 else 0)
    if not only:
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as h:
            json.dump(ev, h, indent=1)
    if line:
        print(line)
    elif rc == 0:
        print('%s: %d/%d obligations discharged in %d proof units, %.1fs' % (prop, cov['discharged'], cov['obligations'], len(po), ev['wall_s']))
    return rc


COMMON_ASSUMPTIONS = [
    'coco_error() never returns and the message functions leave library state alone (runtime layer, include/vf.h); allocation never fails',
    'IEEE-754 binary64 with round-to-nearest as modelled bit-precisely by CBMC; x86-64 ABI',
    'pointer arguments designate separate, correctly sized objects, as the headers require',
]
