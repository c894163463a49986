"""Driver core: mechanical extraction of /repo's sources, contract proofs with CBMC (DFCC),
bounded stand-ins, native replay, evidence."""
import glob, json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
from . import csrc

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VF_REPO', '/repo')
NJOBS = int(os.environ.get('VF_JOBS', '5'))


# back ends tried concurrently; the first one that decides every obligation wins
PORTFOLIO = {'MiniSat': [], 'CaDiCaL': ['--sat-solver', 'cadical'], 'Z3': ['--z3'], 'CVC5': ['--cvc5']}


class Proof:
    """One deductive obligation set: function `enforce` against contract, callees by contract."""

    def __init__(self, name, unit, harness, enforce=None, replace=(), loops=None, unwind=3, timeout=240,
                 flags=(), defines=(), functions=None, note='', nodfcc=False, solver=None, fptrs=None, calls=None, preunwind=None, deep=False):
        self.deep = deep  # thorough tier only
        self.preunwind = preunwind  # loops with a constant number of iterations around a loop with a contract: unwound (checked) before DFCC
        self.fptrs, self.calls = fptrs or {}, calls or {}
        self.name, self.unit, self.harness, self.enforce = name, unit, harness, enforce
        self.replace, self.loops = list(replace), loops or {}
        self.unwind, self.timeout, self.flags, self.defines = unwind, timeout, list(flags), list(defines)
        self.functions = functions or ([enforce.split('/')[0]] if enforce else [])
        self.note, self.nodfcc, self.solver = note, nodfcc, solver or PORTFOLIO


class Lemma:
    """A lemma over the contracts, machine-checked by Coq."""

    def __init__(self, name, file, theorems, timeout=120):
        self.name, self.file, self.theorems, self.timeout, self.functions = name, file, theorems, timeout, []


class Bounded:
    """Bounded stand-in / counterexample search on the same real code, no contracts."""

    def __init__(self, name, unit, harness='harness', unwind=5, unwindset=(), timeout=300, defines=(), bound='',
                 flags=(), standin=False, native=True, search_iters=200000, functions=(), cbmc=True, search_secs=25):
        self.name, self.unit, self.harness, self.unwind = name, unit, harness, unwind
        self.unwindset, self.timeout, self.defines, self.bound = list(unwindset), timeout, list(defines), bound
        self.flags, self.standin, self.native = list(flags), standin, native
        self.search_iters, self.functions, self.cbmc, self.search_secs = search_iters, list(functions), cbmc, search_secs


def run(cmd, timeout, cwd=None, mem_gb=12):
    t = time.time()
    pre = 'ulimit -v %d; exec "$@"' % (mem_gb * 1024 * 1024)
    try:
        p = subprocess.Popen(['bash', '-c', pre, 'sh'] + cmd if mem_gb else cmd, stdout=subprocess.PIPE,
                             stderr=subprocess.PIPE, cwd=cwd, start_new_session=True)
        try:
            o, e = p.communicate(timeout=timeout)
        except subprocess.TimeoutExpired:
            try:
                os.killpg(p.pid, 9)
            except OSError:
                pass
            o, e = p.communicate()
            return 'timeout', o.decode('utf8', 'replace'), e.decode('utf8', 'replace'), time.time() - t
        return p.returncode, o.decode('utf8', 'replace'), e.decode('utf8', 'replace'), time.time() - t
    except OSError as ex:
        return 'oserror', '', str(ex), time.time() - t


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.tmp = tempfile.mkdtemp(prefix='vf_%s_' % prop)
        self.base = os.path.join(self.tmp, 'src')
        self.repdir = os.path.join(VERIF, 'evidence', 'replay')

    def prepare(self):
        """Mechanical extraction: every src/*.c and *.h of /repo, byte for byte, with a
        '#pragma once' and '#line' prefix (the sources include each other without guards)."""
        os.makedirs(self.base)
        src = os.path.join(REPO, 'src')
        for f in sorted(glob.glob(src + '/*.c') + glob.glob(src + '/*.h')):
            b = os.path.basename(f)
            if b == 'coco_version.c':
                continue
            with open(f, encoding='utf8', errors='surrogateescape') as h:
                s = h.read()
            with open(os.path.join(self.base, b), 'w', encoding='utf8', errors='surrogateescape') as h:
                h.write('#pragma once\n#line 1 "%s"\n%s' % (f, s))

    def unit_dir(self, proof):
        """directory with the sources, loop contracts spliced in where the proof needs them"""
        d = os.path.join(self.tmp, 'u_' + proof.name)
        os.makedirs(d)
        for f in os.listdir(self.base):
            if f in proof.loops:
                with open(os.path.join(self.base, f), encoding='utf8', errors='surrogateescape') as h:
                    s = h.read()
                s = csrc.annotate(s, proof.loops[f])
                with open(os.path.join(d, f), 'w', encoding='utf8', errors='surrogateescape') as h:
                    h.write(s)
            else:
                os.symlink(os.path.join(self.base, f), os.path.join(d, f))
        for f in proof.loops:
            if not os.path.exists(os.path.join(d, f)):
                raise csrc.AttachError('source file %s is gone' % f)
        return d

    def cleanup(self):
        shutil.rmtree(self.tmp, ignore_errors=True)


def parse_results(out):
    try:
        data = json.loads(out)
    except ValueError:
        return None, 'unparsable output'
    res, status, err = None, None, ''
    for d in data:
        if 'result' in d:
            res = d['result']
        if 'cProverStatus' in d:
            status = d['cProverStatus']
        if d.get('messageType') == 'ERROR':
            err += d.get('messageText', '') + '\n'
    return res, err


def parse_text(out):
    if '** Results:' not in out:
        return None
    res, loc = [], ''
    for l in out[out.index('** Results:'):].splitlines():
        m = re.match(r'^\[(\S+)\] (?:line (\d+) )?(.*): (SUCCESS|FAILURE|UNKNOWN|ERROR)$', l)
        if m:
            res.append(dict(property=m.group(1), description=m.group(3), status=m.group(4),
                            sourceLocation=dict(where=loc, line=m.group(2))))
        elif l and not l.startswith('**'):
            loc = l
    return res


def portfolio(cmds, timeout, cwd):
    """run the back ends concurrently; (winner, results, seconds, error)"""
    t = time.time()
    procs = {}
    for k, c in cmds.items():
        f = open(os.path.join(cwd, 'out_%s' % k), 'w+b')
        pre = 'ulimit -v %d; exec "$@"' % (8 * 1024 * 1024)
        procs[k] = (subprocess.Popen(['bash', '-c', pre, 'sh'] + c, stdout=f, stderr=subprocess.STDOUT, cwd=cwd, start_new_session=True), f)
    best, err, win = None, '', ''
    try:
        while procs and time.time() - t < timeout:
            for k in list(procs):
                p, f = procs[k]
                if p.poll() is None:
                    continue
                f.seek(0)
                so = f.read().decode('utf8', 'replace')
                f.close()
                del procs[k]
                res = parse_text(so)
                if res is None:
                    err += 'cbmc error (%s): rc=%s %s\n' % (k, p.returncode, so[-400:])
                    if 'too many addressed objects' in so:
                        return '', None, time.time() - t, err
                    continue
                bad = {r['status'] for r in res}
                if not bad & {'UNKNOWN', 'ERROR'} or 'FAILURE' in {r['status'] for r in res if 'VF_REACH:' not in r['description']}:
                    return k, res, time.time() - t, ''
                best, win = res, k
            time.sleep(0.05)
    finally:
        for p, f in procs.values():
            try:
                os.killpg(p.pid, 9)
            except OSError:
                pass
            p.wait()
            f.close()
    return win, best, time.time() - t, err or 'cbmc timeout after %ds' % timeout


class Outcome:
    """kind: proved | failed | unattached (contracts do not fit the code as it is now, or tool limit)"""

    def __init__(self, proof):
        self.name = proof.name
        self.kind, self.reason = 'unattached', ''
        self.obligations = self.discharged = 0
        self.failed, self.solver_s, self.reach = [], 0.0, []
        self.backend, self.cmd, self.steps = '', '', []


def _paren_head(t):
    """text of the callee expression in front of the argument list"""
    if t.startswith('('):
        d = 0
        for i, c in enumerate(t):
            d += (c == '(') - (c == ')')
            if d == 0:
                return t[1:i]
    return t.split('(')[0]


def run_lemma(ctx, p):
    o = Outcome(p)
    d = os.path.join(ctx.tmp, 'l_' + p.name)
    os.makedirs(d)
    shutil.copy(os.path.join(VERIF, 'lemmas', p.file), d)
    rc, so, se, o.solver_s = run(['coqc', '-q', p.file], p.timeout, cwd=d, mem_gb=0)
    o.backend, o.cmd, o.obligations = 'Coq 8.16 kernel', 'coqc ' + p.file, len(p.theorems)
    txt = open(os.path.join(d, p.file)).read()
    if rc == 0 and not re.search(r'\b(Admitted|admit|Axiom|Parameter)\b', txt) and all(re.search(r'Theorem %s\b' % t, txt) for t in p.theorems):
        o.kind, o.discharged = 'proved', len(p.theorems)
    else:
        o.reason = 'coqc: %s %s' % (rc, (so + se)[-500:])
    return o


def run_proof(ctx, p):
    if isinstance(p, Lemma):
        return run_lemma(ctx, p)
    o = Outcome(p)
    t0 = time.time()
    try:
        d = ctx.unit_dir(p)
    except csrc.AttachError as ex:
        o.reason = 'contract does not attach: %s' % ex
        return o
    w = lambda n: os.path.join(d, n)
    defs = ['-D' + x for x in p.defines]
    cmd = ['goto-cc', '-DVF_PROOF', '-I', d, '-I', os.path.join(VERIF, 'include'), '-I', os.path.join(VERIF, 'units')] + \
        defs + ['--function', p.harness, '-o', w('a.gb'), os.path.join(VERIF, 'units', p.unit)]
    rc, so, se, _ = run(cmd, 120)
    if rc != 0:
        o.reason = 'goto-cc: ' + (so + se)[-1500:]
        return o
    first = w('a.gb')
    if p.fptrs:
        rc, so, se, _ = run(['goto-instrument', '--show-goto-functions', w('a.gb')], 120)
        cur, cnt, opts = None, 0, []
        for line in so.splitlines():
            m = re.match(r'^(\S+) /\* (\S+?),? ?.*\*/$', line)
            if m:
                cur, cnt = m.group(1), 0
                continue
            m = re.search(r'\bCALL (?:.*? := )?\*(.*)$', line)
            if m:
                cnt += 1
                callee = _paren_head(m.group(1))
                mem = re.search(r'(\w+)\)*$', callee)
                if mem and mem.group(1) in p.fptrs:
                    opts += ['--restrict-function-pointer', '%s.function_pointer_call.%d/%s' % (cur, cnt, ','.join(p.fptrs[mem.group(1)]))]
        if opts:
            rc, so, se, _ = run(['goto-instrument'] + opts + [w('a.gb'), w('a1.gb')], 120)
            if rc != 0:
                o.reason = 'goto-instrument (function pointers): ' + (so + se)[-1500:]
                return o
            first = w('a1.gb')
    rc, so, se, _ = run(['goto-instrument', '--list-goto-functions', first], 120)
    defined = set(re.findall(r'^(\S+) /\*', so, re.M)) | set(l.split()[0] for l in so.splitlines() if l.strip())
    rm = []
    cs = ['%s:%s' % (f, g) for f, g in p.calls.items() if f in defined]
    if cs:  # callee represented by an executable form of its contract (pointer results that a contract cannot name)
        rc, so, se, _ = run(['goto-instrument'] + sum([['--replace-calls', c] for c in cs], []) + [first, w('a3.gb')], 120)
        if rc != 0:
            o.reason = 'goto-instrument --replace-calls: ' + (so + se)[-1500:]
            return o
        first = w('a3.gb')
    for r in p.replace:
        f = r.split('/')[0]
        if f in defined and not (p.enforce and p.enforce.split('/')[0] == f):
            rm += ['--remove-function-body', f]
    if rm:  # callees are represented by their contracts only: their bodies (and what only they use) are dropped
        rc, so, se, _ = run(['goto-instrument'] + rm + [first, w('a2.gb')], 120)
        if rc != 0:
            o.reason = 'goto-instrument: ' + (so + se)[-1500:]
            return o
        first = w('a2.gb')
    rc, so, se, _ = run(['goto-instrument', '--drop-unused-functions', first, w('b.gb')], 120)
    if rc != 0:
        o.reason = 'goto-instrument: ' + (so + se)[-1500:]
        return o
    last = w('b.gb')
    if p.preunwind:
        rc, so, se, _ = run(['goto-instrument', '--unwindset', p.preunwind, '--unwinding-assertions', w('b.gb'), w('b2.gb')], 120)
        if rc != 0:
            o.reason = 'goto-instrument --unwindset: ' + (so + se)[-1500:]
            return o
        os.rename(w('b2.gb'), w('b.gb'))
    if not p.nodfcc:
        rc, so, se, _ = run(['goto-instrument', '--list-goto-functions', w('b.gb')], 120)
        present = set(re.findall(r'^(\S+) /\*', so, re.M)) | set(l.strip() for l in so.splitlines())
        cmd = ['goto-instrument', '--dfcc', p.harness]
        if p.enforce:
            cmd += ['--enforce-contract', p.enforce]
        for r in p.replace:
            if r.split('/')[0] in present:
                cmd += ['--replace-call-with-contract', r]
        if p.loops:
            cmd += ['--apply-loop-contracts']
        cmd += [w('b.gb'), w('c.gb')]
        o.steps.append(' '.join(cmd[:-2]))
        rc, so, se, _ = run(cmd, 200)
        if rc != 0:
            o.reason = 'goto-instrument --dfcc: ' + (so + se)[-1500:]
            return o
        last = w('c.gb')
    rc, so, se, _ = run(['goto-instrument', '--slice-global-inits', last, w('d.gb')], 120)
    if rc == 0:
        last = w('d.gb')
    lib = []
    if not p.nodfcc:
        rc, so, se, _ = run(['goto-instrument', '--show-loops', last], 60)
        lib = sorted(set(re.findall(r'^Loop (__CPROVER_contracts\S+):', so, re.M)))
    base = ['cbmc', '--unwind', str(p.unwind), '--no-malloc-may-fail'] + \
        (['--unwindset', ','.join(l + ':80' for l in lib)] if lib else []) + p.flags
    for bits in ([], ['--object-bits', '9'], ['--object-bits', '12']):
        # 2^8..2^9 objects keep DFCC's object maps below the size at which CBMC switches to the array theory
        win, res, secs, err = portfolio({k: base + bits + v + [last] for k, v in p.solver.items()}, p.timeout, d)
        if 'too many addressed objects' not in err:
            break
    o.cmd = ' '.join(base + bits + p.solver.get(win, []))
    o.backend = 'CBMC/' + win if win else 'none'
    o.solver_s = secs
    if res is None:
        o.reason = err
        return o
    reach = [r for r in res if 'VF_REACH:' in r['description']]
    real = [r for r in res if 'VF_REACH:' not in r['description']]
    o.obligations = len(real)
    o.discharged = sum(r['status'] == 'SUCCESS' for r in real)
    o.failed = [r for r in real if r['status'] != 'SUCCESS']
    o.reach = [(r['description'], r['status']) for r in reach]
    hasfail = any(r['status'] == 'FAILURE' for r in o.failed)
    limit = [r for r in o.failed if r['status'] not in ('FAILURE', 'UNKNOWN' if hasfail else 'FAILURE') or 'unwinding assertion' in r['description']
             or 'recursion' in r['description'] or 'undefined function should be unreachable' in r['description']]
    if limit:
        o.reason = 'tool limit: ' + '; '.join('%s %s' % (r['property'], r['description']) for r in limit[:4])
    elif o.failed:
        o.kind = 'failed'
        o.reason = '; '.join('%s: %s' % (r['property'], r['description']) for r in o.failed[:6])
    elif not reach or any(r['status'] != 'FAILURE' for r in reach) or o.obligations == 0:
        o.reason = 'vacuous: ' + '; '.join('%s %s' % r for r in o.reach)
    else:
        o.kind = 'proved'
    return o


def trace_values(trace):
    out = []
    for st in trace:
        if st.get('stepType') != 'assignment':
            continue
        lhs = st.get('lhs')
        if lhs == 'vf_in_u':
            out.append(('u', int(st['value']['binary'], 2)))
        elif lhs == 'vf_in_d':
            out.append(('d', int(st['value']['binary'], 2)))
    return out


class BOutcome:
    """kind: held | violated | inconclusive"""

    def __init__(self, b):
        self.name, self.kind, self.reason, self.replay, self.msg = b.name, 'inconclusive', '', None, ''
        self.obligations = self.discharged = 0
        self.secs, self.searched, self.replayed = 0.0, '', ''


def native_build(ctx, b):
    exe = os.path.join(ctx.tmp, 'n_' + b.name)
    if os.path.exists(exe):
        return exe, ''
    cmd = ['gcc', '-g', '-O1', '-w', '-DVF_NATIVE', '-fsanitize=address,undefined', '-fno-sanitize-recover=undefined',
           '-fno-sanitize=shift,float-cast-overflow,alignment',
           '-I', ctx.base, '-I', os.path.join(VERIF, 'include'), '-I', os.path.join(VERIF, 'units')] + \
        ['-D' + x for x in b.defines] + [os.path.join(VERIF, 'units', b.unit), '-no-pie', '-Wl,--unresolved-symbols=ignore-all', '-o', exe, '-lm']
    rc, so, se, _ = run(cmd, 120, mem_gb=0)
    if rc != 0:
        return None, (so + se)[-2000:]
    return exe, ''


ENV = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:handle_abort=1:abort_on_error=0:exitcode=1:allocator_may_return_null=1',
           UBSAN_OPTIONS='halt_on_error=1:exitcode=1:print_stacktrace=0')


def native_run(ctx, exe, args, timeout):
    wd = tempfile.mkdtemp(dir=ctx.tmp)
    try:
        p = subprocess.run([exe] + args, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, cwd=wd, env=ENV)
        return p.returncode, p.stdout.decode('utf8', 'replace')
    except subprocess.TimeoutExpired as ex:
        return 'timeout', (ex.stdout or b'').decode('utf8', 'replace')
    finally:
        shutil.rmtree(wd, ignore_errors=True)


def write_replay(ctx, b, values_text, msg, output, how):
    os.makedirs(ctx.repdir, exist_ok=True)
    path = os.path.join(ctx.repdir, '%s_%s.txt' % (ctx.prop, b.name))
    with open(path, 'w') as h:
        h.write('# property %s, harness units/%s, %s\n# failed: %s\n' % (ctx.prop, b.unit, how, msg))
        h.write('# rerun: /verif/bin/replay %s %s <this file>\n' % (ctx.prop, b.name))
        h.write(values_text)
        h.write('\n# output of the native run on the real code:\n')
        for l in output.splitlines()[:80]:
            h.write('#   ' + l + '\n')
    return path


def run_bounded(ctx, b, search=True):
    """CBMC on the real code with a stated bound; a counterexample is replayed natively."""
    o = BOutcome(b)
    exe, nerr = native_build(ctx, b) if b.native else (None, 'no native harness')
    if b.cbmc:
        cmd = ['cbmc', '--json-ui', '--trace', '-DVF_BOUNDED', '-I', ctx.base, '-I', os.path.join(VERIF, 'include'),
               '-I', os.path.join(VERIF, 'units')] + ['-D' + x for x in b.defines] + \
              ['--function', b.harness, '--unwind', str(b.unwind), '--no-malloc-may-fail', '--drop-unused-functions', '--slice-formula'] + \
              (['--unwindset', ','.join(b.unwindset)] if b.unwindset else []) + b.flags + \
              [os.path.join(VERIF, 'units', b.unit)]
        rc, so, se, o.secs = run(cmd, b.timeout)
        if rc == 'timeout':
            o.reason = 'cbmc timeout'
        else:
            res, err = parse_results(so)
            if res is None:
                o.reason = 'cbmc error rc=%s %s %s' % (rc, err[-1500:], se[-300:])
            else:
                reach = [r for r in res if 'VF_REACH:' in r['description']]
                real = [r for r in res if 'VF_REACH:' not in r['description']]
                o.obligations, o.discharged = len(real), sum(r['status'] == 'SUCCESS' for r in real)
                bad = [r for r in real if r['status'] == 'FAILURE']
                limit = [r for r in bad if 'unwinding assertion' in r['description'] or 'recursion' in r['description']
                         or 'undefined function should' in r['description']]
                hard = [r for r in bad if r not in limit]
                for r in sorted(hard, key=lambda r: not r['description'].startswith('VF:'))[:12]:
                    if 'trace' not in r or not exe:
                        continue
                    vals = trace_values(r['trace'])
                    txt = '\n'.join('%s %s' % (k, v if k == 'u' else '%016x' % v) for k, v in vals)
                    vf = os.path.join(ctx.tmp, 'vals_%s' % b.name)
                    open(vf, 'w').write(txt + '\n')
                    nrc, nout = native_run(ctx, exe, [os.path.join(ctx.tmp, 'dump_r_' + b.name), 'replay', vf], 60)
                    o.replayed += '[%s -> native rc=%s] ' % (r['description'][:80], nrc)
                    if nrc not in (0, 2, 3):
                        o.kind, o.msg = 'violated', r['description']
                        o.replay = write_replay(ctx, b, txt, r['description'], nout, 'counterexample of CBMC replayed natively')
                        return o
                if not bad and reach and all(r['status'] == 'FAILURE' for r in reach):
                    o.kind = 'held'
                elif hard:
                    o.reason = 'counterexample not confirmed natively: ' + '; '.join(r['description'] for r in hard[:4])
                elif limit:
                    o.reason = 'bound exceeded: ' + '; '.join(r['property'] for r in limit[:4])
                else:
                    o.reason = 'vacuous'
    if exe and search:
        dump = os.path.join(ctx.tmp, 'dump_' + b.name)
        secs = b.search_secs
        nrc, nout = native_run(ctx, exe, [dump, 'search', str(ctx.seed), str(b.search_iters), str(secs)], secs + 30)
        o.searched = nout.strip().splitlines()[-1] if nout.strip() else 'rc=%s' % nrc
        if nrc not in (0, 'timeout') and os.path.exists(dump):
            txt = open(dump).read()
            o.kind, o.msg = 'violated', txt.splitlines()[0].lstrip('# ')
            o.replay = write_replay(ctx, b, txt, o.msg, nout, 'counterexample found by searching the failed obligation natively')
        elif not b.cbmc and nrc == 0:
            o.kind = 'held'
    elif not exe:
        o.reason += ' native build: ' + nerr[-300:]
    return o


def parallel(fn, items, n=None):
    with ThreadPoolExecutor(max_workers=n or NJOBS) as ex:
        return list(ex.map(fn, items))
