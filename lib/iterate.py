"""Decoders that loop over shift sequences: obligations about one arbitrary iteration instead of an unwound loop.

From the text of the decoder F a second function F__it is derived mechanically: the loop that advances the input pointer
becomes `for (HEAD; cond; (step), BACK) body`, where HEAD records the variables the loop assigns (or, in resume mode, sets
them from the record of another call), and BACK records them and returns a special result.  Everything else is verbatim.
contracts/iter.h states the obligations that make the bounded clauses hold for inputs of any length by induction.
"""
import re

import cut
import slicer
import vf

OBS = {'ob_dec': 'ob_it_dec', 'ob_redo': 'ob_it_redo', 'ob_prefix': 'ob_it_prefix', 'ob_progress': 'ob_it_progress'}
LIMIT = 0x3ffffffe   # RET_COUNT_MAX: the conversion loop never asks for more (L.count)


def over_input(text):
    """does a loop (or a backward goto) advance the input pointer?"""
    head = text[:text.index('{')]
    m = re.search(r'\*\s*(\w+)\s*,\s*size_t\s+\w+\s*\)\s*$', head)
    labels = {l.group(1): l.start() for l in re.finditer(r'[;{}]\s*(\w+)\s*:(?!:)', text) if l.group(1) != 'default'}
    if any(labels.get(g.group(1), 1e9) < g.start() for g in re.finditer(r'\bgoto\s+(\w+)\s*;', text)):
        return True
    if re.search(r'\bdo\b', text):
        for l in re.finditer(r'\bdo\b', text):
            toks = slicer.tokens(text[l.start():])
            if m and m.group(1) in cut.assigned(toks[:cut._stmt_end(toks, 0)]):
                return True
        text = re.sub(r'\bdo\b', 'if (1)', text)
        text = re.sub(r'\bwhile\b(?=[^;{}]*;)', 'if', text)
    try:
        loops = cut.cut_function(text)[1]
    except cut.CutError:
        return True
    return any(not m or m.group(1) in l.vars for l in loops)


class It:
    def __init__(self, text, fname):
        head = text[:text.index('{')]
        m = re.search(r'\(\s*conv_t\s+(\w+)\s*,\s*ucs4_t\s*\*\s*(\w+)\s*,\s*(?:const\s+unsigned\s+char|unsigned\s+char\s+const)\s*\*\s*(\w+)'
                      r'\s*,\s*size_t\s+(\w+)\s*\)\s*$', head)
        if not m:
            raise cut.CutError('signature')
        conv, pwc, self.s, self.n = m.groups()
        labels = {l.group(1): l for l in re.finditer(r'[;{}]\s*(\w+)\s*:(?!:)', text) if l.group(1) != 'default'}
        back = [g for g in re.finditer(r'\bgoto\s+(\w+)\s*;', text) if g.group(1) in labels and labels[g.group(1)].start() < g.start()]
        if back:
            if len({g.group(1) for g in back}) != 1:
                raise cut.CutError('backward jumps to several labels')
            lab = labels[back[0].group(1)]
            inside = cut.assigned(slicer.tokens(text[lab.end():back[-1].end()]))
            before = cut.declared(slicer.tokens(text[:lab.start()]))
            vs = sorted(v for v in inside if v in before)
            if pwc in vs or conv in vs or any('[]' + v in before for v in vs):
                raise cut.CutError('variables')
            new, pos = '', 0
            new = text[:lab.end()] + ' /*HEAD0*/;'
            pos = lab.end()
            for g in back:
                new += text[pos:g.start()] + '{ /*BACK0*/; }'
                pos = g.end()
            new += text[pos:]
            l = cut.Loop(0, vs)
        else:
            new, loops = cut.cut_function(text)
            if any(pwc in l.vars or conv in l.vars for l in loops):
                raise cut.CutError('parameters assigned')
            over = [l for l in loops if self.s in l.vars]
            if len(over) != 1:
                raise cut.CutError('%d loops over the input' % len(over))
            l = over[0]
            for o in loops:
                if o is not l:
                    new = new.replace('/*HEAD%d*/' % o.n, '').replace(', /*BACK%d*/' % o.n, '').replace('/*BACK%d*/' % o.n, '')
        self.vars = [v for v in l.vars if v != self.s]
        items = [(v, v) for v in self.vars] + [('istate_', conv + '->istate'), ('bo_', conv + '->ibyteorder')]
        self.items = [i for i, e in items]
        g = 'const unsigned char *it_h_s, *it_b_s; _Bool it_resume, it_reached; unsigned it_d;\n#define IT_CONT 1000000\n'
        for i in self.items:
            g += 'long long it_h_%s, it_b_%s; long long nondet_it_%s(void);\n' % (i, i, i)
        hd = '({ it_reached = 1; if (it_resume) { %s = it_h_s; ' % self.s
        hd += ''.join('%s = (__typeof__(%s))(IT_EQ_%s ? it_h_%s : IT_SH_%s ? it_h_%s + it_d : nondet_it_%s()); ' %
                      (e, e, i, i, i, i, i) for i, e in items)
        hd += '} else { it_h_s = %s; ' % self.s + ''.join('it_h_%s = (long long)%s; ' % (i, e) for i, e in items) + '} 0; })'
        bk = '({ it_b_s = %s; ' % self.s + ''.join('it_b_%s = (long long)%s; ' % (i, e) for i, e in items) + 'return IT_CONT; 0; })'
        new = new.replace('/*HEAD%d*/' % l.n, hd).replace('/*BACK%d*/' % l.n, bk)
        new = re.sub(r'\b%s\b' % re.escape(fname), fname + '__it', new, count=1)
        self.text = new + "\n"
        self.globals = g
        self.n_assigned = self.n in self.vars

    def defs(self, roles, fname, cands=()):
        """roles: {item: 'eq' | 'sh' | None}; None before the roles are known"""
        d = '#define DEC0 %s\n#define DEC %s__it\n#define IT_LIMIT 0x%xu\n' % (fname, fname, LIMIT)
        d += 'static void it_roles(unsigned k) {\n'
        for i, c in cands:
            d += '    __CPROVER_assert(it_b_%s == it_h_%s%s, "role.%s.%s");\n' % (i, i, ' + k' if c == 'sh' else '', i, c)
        d += '}\n#define IT_SAVE(p) ' + ' '.join('long long p##%s = it_b_%s;' % (i, i) for i in self.items) + ' const unsigned char *p##s_ = it_b_s;\n'

        def rel(shift, skip_n):
            c = ['p##s_ == it_b_s' if not shift else '1']
            for i in self.items:
                if roles.get(i) and not (skip_n and i == self.n):
                    c.append('p##%s + (%s) == it_b_%s' % (i, 'dd' if shift and roles[i] == 'sh' else '0', i))
            return ' && '.join(c)
        d += '#define IT_HEADS ' + ' '.join('long long q_%s = it_h_%s;' % (i, i) for i in self.items) + '\n'
        d += '#define IT_HEADS_BACK ' + ' '.join('it_h_%s = q_%s;' % (i, i) for i in self.items) + '\n'
        d += '#define IT_BACKS(p) ' + ' '.join('it_b_%s = p##%s;' % (i, i) for i in self.items) + '\n'
        # same record / record shifted by dd / same but for the number of bytes left
        d += '#define IT_SAME(p) (%s)\n#define IT_SHIFTED(p, dd) (%s)\n#define IT_SAME_N(p) (%s)\n' % (
            rel(False, False), rel(True, False), rel(False, True))
        return d

    def role_macros(self, roles):
        return ''.join('#define IT_EQ_%s %d\n#define IT_SH_%s %d\n' % (i, roles.get(i) == 'eq', i, roles.get(i) == 'sh')
                       for i in self.items)


def frame(pr, e):
    """the frame clauses for any number of iterations"""
    fn = pr.unit.functions()[e.mbtowc]
    it = It(fn.text, e.mbtowc)
    src, hv = pr.slice(e, True)
    d = re.sub(r'#define DEC \w+\n', '', pr.defs(e, [(0, 0)], [0], 8, None))
    f = pr.chk.path('%s_it_frame.c' % e.name)
    with open(f, 'w') as o:
        o.write(src + it.role_macros({}) + it.globals + it.text + d + it.defs({}, e.mbtowc) +
                '#include "%s/contracts/conv.h"\n#include "%s/contracts/iter.h"\n' % (vf.VERIF, vf.VERIF))
    gb = f[:-2] + '.gb'
    ok, err = vf.goto_cc(f, gb)
    if not ok:
        raise cut.CutError('does not compile: ' + err[-500:])
    r = pr.call(e, gb, 'ob_it_frame', e.mbtowc, 8, None, hv, ['--arrays-uf-always'] if hv else [])
    r.func, r.enc, r.havoced = e.mbtowc, e, hv
    return r


def prove(pr, e, obs, n, dst):
    """pr: conv.Prover.  -> {ob: Result} for the obligations discharged for inputs of any length, and the state set"""
    import conv
    fn = pr.unit.functions()[e.mbtowc]
    it = It(fn.text, e.mbtowc)
    src, hv = pr.slice(e, True)
    K = 8

    def group(tag, roles, dst, ob, pre='', cands=()):
        d = pre + re.sub(r'#define DEC \w+\n', '', pr.defs(e, dst, [0], K, None))
        f = pr.chk.path('%s_it_%s.c' % (e.name, tag))
        with open(f, 'w') as o:
            o.write(src + it.role_macros(roles) + it.globals + it.text + d + it.defs(roles, e.mbtowc, cands) +
                    '#include "%s/contracts/conv.h"\n#include "%s/contracts/iter.h"\n' % (vf.VERIF, vf.VERIF))
        gb = f[:-2] + '.gb'
        ok, err = vf.goto_cc(f, gb)
        if not ok:
            raise cut.CutError('does not compile: ' + err[-500:])
        for flags in ((['--arrays-uf-always'], []) if hv else ([],)):
            r = vf.cbmc(gb, ob, name='%s.%s' % (e.name, ob), unwind=K + 4, timeout=max(pr.limit, 100), extra=flags,
                        checks=[c for c in vf.SAFETY if not (hv and c == '--bounds-check')])
            if r.status != 'error':
                break
        r.func, r.enc, r.havoced = e.mbtowc, e, hv
        return r
    # roles of the variables, and what one iteration establishes
    direct = '#define IT_DIRECT\n'
    cands = [(i, c) for i in it.items for c in ('eq', 'sh')]
    samples = [a for a, b in dst[:1] + dst[-1:]]
    for rnd in range(20):
        smp = samples.pop() if samples else None
        r = group('step', {}, dst, 'ob_it_step', direct + ('#define IT_SAMPLE %du\n' % smp if smp is not None else ''), cands)
        bad = [d for _, d in r.failed]
        if direct and any(d.startswith('I.direct') for d in bad):
            direct = ''
            if smp is not None:
                samples.append(smp)
            continue
        cands = [(i, c) for i, c in cands if 'role.%s.%s' % (i, c) not in bad]
        if any(d.startswith('D.state') for d in bad):
            v = pr.new_state(r, 'd')
            if not v or v in dst:
                return {}, dst, [r]
            dst = [(x & 0xffffffff, x >> 32) for x in conv.widen([a | b << 32 for a, b in dst], v[0] | v[1] << 32)]
            continue
        if smp is not None:
            continue
        if any(not d.startswith('role.') for d in bad) or not bad:
            break
    if r.status != 'proved':
        return {}, dst, [r]
    roles = {i: c for i, c in reversed(cands)}
    step = r
    sim = group('sim', roles, dst, 'ob_it_sim')
    if sim.status != 'proved':
        return {}, dst, [sim]
    out = {}
    for ob in obs:
        if ob not in OBS:
            continue
        for rnd in range(12):
            r = group(ob, roles, dst, OBS[ob])
            if r.status == 'failed' and any(d.startswith('D.state') for _, d in r.failed):
                v = pr.new_state(r, 'd')
                if v and v not in dst:
                    return prove(pr, e, obs, n, [(x & 0xffffffff, x >> 32) for x in
                                                 conv.widen([a | b << 32 for a, b in dst], v[0] | v[1] << 32)])
            break
        if r.status == 'proved':
            out[ob] = r
        else:
            return out, dst, [r]
    return out, dst, [step, sim]
