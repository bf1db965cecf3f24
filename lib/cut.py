"""Loop cutting: turns the loops of an extracted function into proof obligations about one arbitrary iteration.

`while (C) B`            becomes  for (HEAD; C; BACK) B
`for (I; C; S) B`        becomes  { I; for (HEAD; C; (S), BACK) B }
HEAD asserts the loop invariant, forgets everything the loop assigns (locals by name, ghost state and memory through the
contract's cut_havoc()), and assumes the invariant; BACK asserts it again and ends the path.  The rest of the text is kept
verbatim.  The invariant has a part the contract fixes (over ghost state) and a part that ties the function's locals to the
ghost state: candidates `local == ghost expression` for every local the loop assigns, from which the verifier itself
discards those that do not hold initially or are not preserved (Houdini), so no name of a local is ever assumed.
"""
import re

import slicer
import vf

ASSIGN = {'=', '+=', '-=', '*=', '/=', '%=', '&=', '|=', '^=', '<<=', '>>=', '++', '--'}
TYPEWORDS = {'int', 'char', 'unsigned', 'signed', 'long', 'short', 'size_t', 'const', 'ucs4_t', 'state_t', 'conv_t', 'void',
             'struct', 'static', 'register', '_Bool', 'ptrdiff_t', 'ssize_t', 'uint32_t', 'volatile', 'double', 'enum'}


class CutError(Exception):
    pass


def _match(toks, i):
    """index of the token closing the bracket at i"""
    op = toks[i][1]
    cl = {'(': ')', '{': '}', '[': ']'}[op]
    d = 0
    for j in range(i, len(toks)):
        if toks[j][1] == op:
            d += 1
        elif toks[j][1] == cl:
            d -= 1
            if d == 0:
                return j
    raise CutError('unbalanced')


def _stmt_end(toks, i):
    """index of the last token of the statement starting at i"""
    t = toks[i][1]
    if t == '{':
        return _match(toks, i)
    if t in ('if', 'while', 'for', 'switch'):
        j = _match(toks, i + 1)
        e = _stmt_end(toks, j + 1)
        if t == 'if' and e + 1 < len(toks) and toks[e + 1][1] == 'else':
            e = _stmt_end(toks, e + 2)
        return e
    if t == 'do':
        e = _stmt_end(toks, i + 1)
        while toks[e][1] != ';':
            e += 1
        return e
    d = 0
    for j in range(i, len(toks)):
        if toks[j][1] in '([{':
            d += 1
        elif toks[j][1] in ')]}':
            d -= 1
        elif toks[j][1] == ';' and d == 0:
            return j
    raise CutError('statement without end')


def assigned(toks):
    """identifiers assigned (or whose address is taken) in a token list; ('*', id) for stores through a pointer"""
    # a plain "*p = x" is a store, "p = x" elsewhere an assignment: recompute precisely
    res = set()
    for i, (k, t, _) in enumerate(toks):
        if k != 'id' or t in slicer.KEYWORDS:
            continue
        prev = toks[i - 1][1] if i else ''
        nxt = toks[i + 1][1] if i + 1 < len(toks) else ''
        if prev in ('.', '->'):
            continue
        if prev in ('++', '--') or nxt in ('++', '--'):
            res.add(t)
        elif nxt in ASSIGN:
            if prev == '*' and i >= 2 and (toks[i - 2][1] in ('{', '}', ';', ':', ')') or toks[i - 2][1] == 'else'):
                continue          # store through the pointer
            res.add(t)
        elif prev == '&' and (i < 2 or toks[i - 2][1] in ('(', ',', '=', 'return', '{', ';')):
            res.add(t)
    return res


def declared(toks):
    """identifiers declared in a token list (parameters and locals)"""
    out = set()
    i = 0
    while i < len(toks):
        k, t, _ = toks[i]
        if t in TYPEWORDS and t not in ('static', 'const', 'register', 'volatile'):
            j = i + 1
            while j < len(toks) and (toks[j][1] in TYPEWORDS or toks[j][1] == '*' or
                                     (toks[j - 1][1] in ('struct', 'enum') and toks[j][0] == 'id')):
                j += 1
            # declarator list
            while j < len(toks) and toks[j][0] == 'id' and toks[j][1] not in slicer.KEYWORDS:
                nxt = toks[j + 1][1] if j + 1 < len(toks) else ';'
                if nxt not in ('=', ';', ',', ')', '['):
                    break
                if nxt in ('=', ';', ',', ')', '['):
                    out.add(toks[j][1])
                if nxt == '[':
                    out.add('[]' + toks[j][1])
                d = 0
                j += 1
                while j < len(toks) and not (d == 0 and toks[j][1] in (',', ';', ')')):
                    d += toks[j][1] in ('(', '[', '{')
                    d -= toks[j][1] in (')', ']', '}')
                    j += 1
                if j < len(toks) and toks[j][1] == ',':
                    j += 1
                    while j < len(toks) and toks[j][1] in ('*', 'const'):
                        j += 1
                    if toks[j][1] in TYPEWORDS:
                        break
                else:
                    break
            i = max(j, i + 1)
        else:
            i += 1
    return out


class Loop:
    def __init__(self, n, vars_):
        self.n = n
        self.vars = vars_


def cut_function(text, first=0):
    """-> (new text with /*HEADn*/ and /*BACKn*/ markers, [Loop])"""
    loops = []
    n = first
    while True:
        toks = slicer.tokens(text)
        pos = next((i for i, t in enumerate(toks) if t[1] in ('while', 'for', 'do') and
                    not text[:t[2]].endswith('/*cut*/')), None)
        if pos is None:
            return text, loops
        kw = toks[pos][1]
        if kw == 'do':
            raise CutError('do loop')
        op = pos + 1
        cl = _match(toks, op)
        if kw == 'while' and toks[cl + 1][1] == ';':
            raise CutError('empty loop')
        end = _stmt_end(toks, cl + 1)

        def src(a, b):
            """text from token a up to (excluding) token b"""
            return text[toks[a][2]:toks[b][2]] if b > a else ''
        endpos = toks[end][2] + len(toks[end][1])
        body = text[toks[cl + 1][2]:endpos]
        if kw == 'while':
            init, cond, step = '', src(op + 1, cl), ''
            mod_toks = toks[op + 1:cl] + toks[cl + 1:end + 1]
        else:
            semis = []
            d = 0
            for j in range(op + 1, cl):
                d += toks[j][1] in ('(', '[', '{')
                d -= toks[j][1] in (')', ']', '}')
                if toks[j][1] == ';' and d == 0:
                    semis.append(j)
            if len(semis) != 2:
                raise CutError('for header')
            init, cond, step = src(op + 1, semis[0]), src(semis[0] + 1, semis[1]), src(semis[1] + 1, cl)
            mod_toks = toks[semis[0] + 1:end + 1]
        inner = declared(toks[cl + 1:end + 1])
        outer = declared(toks[:pos] + (toks[op + 1:cl] if kw == 'for' else []))
        vs = sorted(v for v in assigned(mod_toks) if v in outer and '[]' + v not in outer and not
                    (v in inner and v not in declared(toks[:pos])))
        loops.append(Loop(n, vs))
        rep = '{ %s; /*cut*/for (/*HEAD%d*/; %s; %s /*BACK%d*/) %s }' % (init, n, cond or '1', '(%s),' % step if step.strip() else '',
                                                                       n, body)
        text = text[:toks[pos][2]] + rep + text[endpos:]
        n += 1


def has_loop(text):
    return any(t[1] in ('while', 'for', 'do') for t in slicer.tokens(text) if t[0] == 'id')


class Proof:
    """contract obligations over extracted functions whose loops are cut"""

    def __init__(self, chk, tag, roots, pre, post, exprs=(), hvars=(), stop=(), defs='', cut=lambda name: True, extra_cands=(),
                 opaque=(), sizes=None):
        """pre/post: contract text before and after the extracted functions; exprs: ghost expressions; hvars: harness variables
        the loops may change through pointers; extra_cands: further candidate invariants (C text)"""
        self.chk, self.tag = chk, tag
        self.exprs, self.hvars, self.extra_cands = list(exprs), list(hvars), list(extra_cands)
        u = chk.src.unit
        fns = u.functions()
        for r in roots:
            if r not in u.by_name:
                raise CutError('no %s in the current tree' % r)
        self.loops = []
        newtext = {}
        closure = u.closure(roots, stop, opaque)
        names = {n for d in closure if d.is_func for n in d.defines}
        self.functions = sorted(n for n in names if n in fns)
        for n in self.functions:
            if cut(n) and n not in stop and has_loop(fns[n].text):
                t, ls = cut_function(fns[n].text, first=len(self.loops))
                newtext[n] = t
                self.loops += ls

        def subst(d, x):
            if d.is_func:
                for n in d.defines:
                    if n in newtext and d is fns[n]:
                        return newtext[n]
            return x
        self.text = pre + defs + u.slice(roots, stop, subst, opaque, sizes) + post
        self.plain = '#define BOUNDED_RUN 1\n' + pre + defs + u.slice(roots, stop, None, opaque, sizes) + post
        for l in self.loops:
            l.vars = l.vars + self.hvars
        self.invariants = {}

    def _render(self, cands):
        t = self.text
        for l in self.loops:
            cs = cands[l.n]
            head = '({ cut_establish(); ' + ''.join('__CPROVER_assert(%s, "inv.%d.%s init");' % (e, l.n, i) for i, e in cs) + \
                ''.join('{ __typeof__(%s) cut_t_; %s = cut_t_; }' % (v, v) for v in l.vars) + ' cut_havoc(); ' + \
                self._set(l, cs) + ''.join('__CPROVER_assume(%s);' % e for i, e in cs) + ' cut_assume(); 0; })'
            back = '({ cut_back(); ' + ''.join('__CPROVER_assert(%s, "inv.%d.%s step");' % (e, l.n, i) for i, e in cs) + \
                ' __CPROVER_assume(0); 0; })'
            t = t.replace('/*HEAD%d*/' % l.n, head).replace('/*BACK%d*/' % l.n, back)
        return t

    def _set(self, l, cs):
        """a variable with an equality is given that value (rather than an unknown one assumed equal): same meaning, and the
        verifier keeps track of what pointers point to"""
        out = ''
        for v in l.vars:
            ks = [int(i.split('~')[1]) for i, e in cs if i.startswith(v + '~')]
            if ks:
                out += '%s = (__typeof__(%s))(%s);' % (v, v, self.exprs[ks[0]])
        return out

    def _compile(self, text, name):
        f = self.chk.path('%s_%s.c' % (self.tag, name))
        with open(f, 'w') as o:
            o.write(text)
        ok, err = vf.goto_cc(f, f[:-2] + '.gb')
        if not ok:
            raise CutError('goto-cc: ' + err)
        return f[:-2] + '.gb'

    def prove(self, ob, realfunc, unwind=6, timeout=60, extra=('--slice-formula',), backend=None, checks=vf.SAFETY):
        """invariant inference and discharge; -> Result (proved, or not proved with the reason)"""
        t = 0
        cands = {}
        for l in self.loops:
            cands[l.n] = [('%s~%d' % (v, k), '(unsigned long)(%s) == (unsigned long)(%s)' % (v, e))
                          for v in l.vars for k, e in enumerate(self.exprs)] + \
                [('x~%d' % k, e) for k, e in enumerate(self.extra_cands)]
        r = None
        for rnd in range(14):
            gb = self._compile(self._render(cands), '%s_r%d' % (ob, rnd))
            r = vf.cbmc(gb, ob, name='%s.%s' % (self.tag, ob), unwind=unwind, timeout=timeout, extra=list(extra), trace=False,
                        checks=checks)
            t += r.time
            pat = re.compile(r'inv\.(\d+)\.(\S+) ')
            bad = {pat.match(d).group(1, 2) for p, d in r.failed if pat.match(d)}
            if not (r.status == 'failed' and bad):
                break
            ini = {pat.match(d).group(1, 2) for p, d in r.failed if d.startswith('inv.') and d.endswith('init')}
            drop = ini or bad
            for l in self.loops:
                cands[l.n] = [c for c in cands[l.n] if (str(l.n), c[0]) not in drop]
        else:
            r.status = 'undecided'
            r.out = 'no fixpoint of the invariant candidates'
        r.time = t
        r.func = realfunc
        r.invariant = {l.n: [c[1] for c in cands[l.n]] for l in self.loops}
        return r

    def bounded(self, ob, realfunc, iters=3, timeout=60, extra=(), checks=vf.SAFETY):
        """the same obligations with the loops as they are, at most `iters` iterations"""
        gb = self._compile(self.plain, ob + '_plain')
        r = vf.cbmc(gb, ob, name='%s.%s.bounded' % (self.tag, ob), unwind=iters + 1, timeout=timeout, trace=True,
                    extra=list(extra), uwa=False, bounded='at most %d loop iterations' % iters, checks=checks)
        r.func = realfunc
        return r

    def decide(self, obs, iters=3, timeout=60, **kw):
        """obs: [(obligation function, real function)]; reports what fails.  A failed cut proof alone decides nothing (the
        invariant may be missing); the same contract must also fail on the loops as they are."""
        def job(x):
            ob, fn = x[:2]
            k = dict(kw)
            if len(x) > 2:
                k.update(x[2])
            try:
                r = self.prove(ob, fn, timeout=timeout, **k)
                if r.status == 'proved' or (not self.loops and r.status != 'failed'):
                    return r
                b = self.bounded(ob, fn, iters, timeout, checks=k.get("checks", vf.SAFETY))
                if b.status == 'error' and 'vacuous' in b.out:
                    b.status = 'undecided'
                if b.status in ('proved', 'failed'):
                    b.time += r.time
                    b.out += '\n(unbounded proof: %s %s)' % (r.status, r.out[:500])
                    return b
                return r
            except CutError as ex:
                r = vf.Result('%s.%s' % (self.tag, ob), fn)
                r.status = 'undecided'
                r.out = str(ex)
                return r
        for r in vf.pmap(job, obs):
            self.chk.add(r)
            if r.status == 'failed':
                self.chk.violate('%s:%s' % (r.name, r.failed[0][1].split(':')[0]),
                                 'contract of %s fails: %s' % (r.func, r.failed[0][1]), False,
                                 'failed obligations:\n%s\nverifier: %s\ncounterexample over the callee contracts:\n%s\n' % (
                                     '\n'.join('  %s: %s' % f for f in r.failed[:20]), r.cmd,
                                     '\n'.join('  %s = %s' % kv for kv in sorted(r.trace.items())
                                               if re.match(r'[gh]_', kv[0]))[:4000]))
            elif r.status not in ('proved',) and r.status != 'undecided':
                r.status = 'undecided'


def attempt(chk, what, fn):
    """run a proof step; an extraction problem is not a verdict about the code"""
    try:
        fn()
    except Exception as ex:
        r = vf.Result(what, what)
        r.status = 'undecided'
        r.out = 'not brought to the verifier: %s' % str(ex)[:500]
        chk.add(r)
