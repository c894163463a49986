"""Minimal C source scanner: locates function definitions and their loops so that
loop contracts and ghost statements can be spliced mechanically into a scratch copy
of /repo's sources.  It never changes executable text: everything inserted is either
a CBMC loop-contract clause, a brace pair, or an assignment to a ghost variable
(names starting with vfg_)."""
import re


class AttachError(Exception):
    """The annotation cannot be attached to the code as it is now (renamed local, loop
    rewritten or moved into a helper ...).  Never a violation by itself."""


_TOK = re.compile(r'''
   (?P<com>/\*.*?\*/|//[^\n]*)
 | (?P<str>"(?:\\.|[^"\\\n])*"|'(?:\\.|[^'\\\n])*')
 | (?P<pp>^[ \t]*\#(?:\\\n|[^\n])*)
 | (?P<id>[A-Za-z_]\w*)
 | (?P<num>\.?\d(?:[eEpP][+-]|[\w.])*)
 | (?P<op>->|\+\+|--|<<=|>>=|<=|>=|==|!=|&&|\|\||[-+*/%&|^]=|<<|>>|[-+*/%&|^~!<>=?:;,.(){}\[\]])
''', re.X | re.S | re.M)


class Tok:
    __slots__ = ('k', 't', 'b', 'e')

    def __init__(self, k, t, b, e):
        self.k, self.t, self.b, self.e = k, t, b, e

    def __repr__(self):
        return self.t


def tokenize(s):
    out = []
    for m in _TOK.finditer(s):
        k = m.lastgroup
        if k in ('com', 'pp'):
            continue
        out.append(Tok(k, m.group(), m.start(), m.end()))
    return out


PAIR = {'(': ')', '{': '}', '[': ']'}


def match(toks, i):
    """index of the bracket closing toks[i]"""
    o, c, d = toks[i].t, PAIR[toks[i].t], 0
    while i < len(toks):
        if toks[i].t == o:
            d += 1
        elif toks[i].t == c:
            d -= 1
            if d == 0:
                return i
        i += 1
    raise AttachError('unbalanced ' + o)


class Loop:
    pass


class Func:
    pass


def find_functions(s, toks=None):
    """name -> Func for all definitions at brace depth 0"""
    toks = toks or tokenize(s)
    res, i, n = {}, 0, len(toks)
    while i < n:
        t = toks[i]
        if t.t == '{':
            i = match(toks, i) + 1
            continue
        if t.k == 'id' and i + 1 < n and toks[i + 1].t == '(':
            c = match(toks, i + 1)
            if c + 1 < n and toks[c + 1].t == '{' and t.t not in ('if', 'for', 'while', 'switch'):
                f = Func()
                f.name, f.toks = t.t, toks
                f.params = _params(toks, i + 2, c)
                f.b, f.e = c + 1, match(toks, c + 1)
                res[f.name] = f
                i = f.e + 1
                continue
            i = c + 1
            continue
        i += 1
    return res


def _params(toks, b, e):
    out, d, cur = [], 0, []
    for t in toks[b:e]:
        if t.t in '([':
            d += 1
        if t.t in ')]':
            d -= 1
        if t.t == ',' and d == 0:
            out.append(cur)
            cur = []
        else:
            cur.append(t)
    if cur:
        out.append(cur)
    names = []
    for c in out:
        ids = [t.t for t in c if t.k == 'id']
        names.append(ids[-1] if ids else None)
    return names


def stmt_end(toks, i):
    """index of the last token of the statement starting at toks[i]"""
    t = toks[i].t
    if t == '{':
        return match(toks, i)
    if t in ('if', 'for', 'while', 'switch'):
        c = match(toks, i + 1)
        e = stmt_end(toks, c + 1)
        if t == 'if' and e + 1 < len(toks) and toks[e + 1].t == 'else':
            return stmt_end(toks, e + 2)
        return e
    if t == 'do':
        e = stmt_end(toks, i + 1)
        c = match(toks, e + 2)
        return c + 1
    while toks[i].t != ';':
        if toks[i].t in PAIR:
            i = match(toks, i)
        i += 1
    return i


def find_loops(f):
    toks, res, i = f.toks, [], f.b
    do_tails = set()
    while i <= f.e:
        t = toks[i]
        if t.k == 'id' and t.t == 'do':
            e = stmt_end(toks, i + 1)
            c = match(toks, e + 2)
            do_tails.add(e + 1)
            cond = [x.t for x in toks[e + 3:c]]
            if cond not in (['0'], ['false'], ['(', '0', ')']):
                l = Loop()
                l.kind, l.start, l.hdr, l.body = 'do', i, (e + 2, c), (i + 1, e)
                l.end = c + 1
                res.append(l)
        elif t.k == 'id' and t.t in ('for', 'while') and i not in do_tails and toks[i + 1].t == '(':
            c = match(toks, i + 1)
            cond = [x.t for x in toks[i + 2:c]]
            l = Loop()
            l.kind, l.start, l.hdr = t.t, i, (i + 1, c)
            if toks[c + 1].t == ';':
                l.body = (c + 1, c + 1)
            else:
                l.body = (c + 1, stmt_end(toks, c + 1))
            l.end = l.body[1]
            if not (t.t == 'while' and cond in (['0'], ['false'])):
                res.append(l)
        i += 1
    return res


def up_counter(f, l):
    """(var, start, bound) if the loop counts var upwards by one from a start value while
    var < bound; raises AttachError otherwise."""
    toks = f.toks
    h = toks[l.hdr[0] + 1:l.hdr[1]]
    if l.kind == 'for':
        parts, cur, d = [], [], 0
        for t in h:
            if t.t in '([':
                d += 1
            if t.t in ')]':
                d -= 1
            if t.t == ';' and d == 0:
                parts.append(cur)
                cur = []
            else:
                cur.append(t)
        parts.append(cur)
        if len(parts) != 3:
            raise AttachError('odd for header')
        init, cond, inc = parts
        ids = [x.t for x in inc if x.k == 'id']
        inct = [x.t for x in inc]
        if len(ids) < 1:
            raise AttachError('loop step')
        v = ids[0]
        if inct not in ([v, '++'], ['++', v], [v, '+=', '1'], [v, '=', v, '+', '1']):
            raise AttachError('loop does not step by one')
        it = [x.t for x in init]
        start = None
        if '=' in it:
            j = it.index('=')
            if it[j - 1] != v or ',' in it:
                raise AttachError('loop start')
            start = ' '.join(it[j + 1:])
    elif l.kind == 'while':
        cond = h
        v = None
        start = None
    else:
        raise AttachError('do loop')
    ct = [x.t for x in cond]
    # strip outer parens
    while ct and ct[0] == '(' and _closing(ct) == len(ct) - 1:
        ct = ct[1:-1]
    if l.kind == 'while':
        v = ct[0] if ct[0] != '(' else ct[1]
        body = [x.t for x in toks[l.body[0]:l.body[1] + 1]]
        js = ' '.join(body)
        if not re.search(r'(\b%s \+\+)|(\+\+ %s\b)|(\b%s \+= 1\b)' % (v, v, v), js):
            raise AttachError('while loop without counter step')
    neg = None
    if len(ct) >= 3 and ct[0] == v and ct[1] in ('<', '!='):
        neg = ' '.join(ct[2:])
    elif len(ct) >= 3 and ct[-1] == v and ct[-2] == '>':
        neg = ' '.join(ct[:-2])
    if neg is None:
        raise AttachError('loop condition shape')
    return v, start, neg


def _closing(ct):
    d = 0
    for i, t in enumerate(ct):
        if t == '(':
            d += 1
        elif t == ')':
            d -= 1
            if d == 0:
                return i
    return -1


def subst(text, f, var):
    def rep(m):
        g = m.group(1)
        if g == 'i':
            if var is None:
                raise AttachError('no loop counter')
            return var
        k = int(g) - 1
        if k >= len(f.params):
            raise AttachError('parameter %s missing' % g)
        return f.params[k]
    text = re.sub(r'@(i|\d)(?!\w)', rep, text)
    def rep2(m):
        name = m.group(1)
        ids = {t.t for t in f.toks[f.b:f.e]}
        if name not in ids:
            raise AttachError('local %s is gone from %s' % (name, f.name))
        return name
    return re.sub(r'@\{(\w+)\}', rep2, text)


def annotate(s, specs):
    """specs: {function: [loopspec|None, ...]} (one entry per loop in textual order; None = leave)
    loopspec: dict(assigns=str, inv=[str], dec=str, shape='up'|'any', start=str|None,
                   pre=str ghost statements before, ghost=str ghost statements at body start)"""
    funcs = find_functions(s)
    edits = []
    for fn, loops in specs.items():
        entry = None
        if isinstance(loops, dict):
            entry = loops.get('entry')
            loops = loops['loops']
        if fn not in funcs:
            raise AttachError('function %s not found' % fn)
        f = funcs[fn]
        found = find_loops(f)
        if len(found) != len(loops):
            raise AttachError('%s: expected %d loops, found %d' % (fn, len(loops), len(found)))
        if entry:
            edits.append((f.toks[f.b].e, 5, ' ' + subst(entry, f, None)))
        for l, sp in zip(found, loops):
            if sp is None:
                continue
            var = None
            if sp.get('shape', 'up') == 'up':
                var, start, bound = up_counter(f, l)
                want = sp.get('start', '0')
                if want is not None and start is not None and start != want:
                    raise AttachError('%s: loop starts at %s, not %s' % (fn, start, want))
            clauses = ''
            if sp.get('assigns') is not None:
                clauses += ' __CPROVER_assigns(%s)' % subst(sp['assigns'], f, var)
            for inv in sp['inv']:
                clauses += ' __CPROVER_loop_invariant(%s)' % subst(inv, f, var)
            if sp.get('dec'):
                clauses += ' __CPROVER_decreases(%s)' % subst(sp['dec'], f, var)
            toks = f.toks
            pre = subst(sp.get('pre', ''), f, var)
            ghost = subst(sp.get('ghost', ''), f, var)
            for g in re.findall(r'(\w+)\s*=[^=]', pre + ' ' + ghost):
                if not g.startswith('vfg_'):
                    raise AttachError('ghost code writes a non-ghost variable ' + g)
            if pre:
                edits.append((toks[l.start].b, 0, '{ ' + pre + ' '))
                edits.append((toks[l.end].e, 9, ' }'))
            edits.append((toks[l.start].e if l.kind == 'do' else toks[l.hdr[1]].e, 1, clauses + ' '))
            if ghost:
                bt = toks[l.body[0]]
                if bt.t == '{':
                    edits.append((bt.e, 2, ' ' + ghost))
                else:
                    edits.append((bt.b, -1, '{ ' + ghost + ' '))
                    edits.append((toks[l.body[1]].e, 8, ' }'))
    edits.sort(key=lambda x: (x[0], x[1]))
    out, pos = [], 0
    for p, _, t in edits:
        out.append(s[pos:p])
        out.append(t)
        pos = p
    out.append(s[pos:])
    return ''.join(out)
