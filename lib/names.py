"""Name and code page lookup, opening: runs of the real functions and proof obligations."""
import os
import re

import cut
import vf

ENV = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=3')


def build(chk, asan):
    with open(chk.path('enc_names.inc'), 'w') as f:
        f.write(''.join('"%s",\n' % e.name for e in chk.src.encodings))
    out = chk.path('names_asan' if asan else 'names')
    fl = ['-O1', '-g', '-fsanitize=address', '-fsanitize=bounds', '-fno-sanitize-recover=bounds'] if asan else ['-O2']
    rc, o, e, dt = vf.sh(['gcc', '-std=gnu17', '-w', '-I' + chk.scratch] + fl + chk.src.cflags +
                         [vf.VERIF + '/native/names.c', '-o', out], timeout=300)
    if rc != 0:
        chk.notes.append('lookup driver does not build: ' + (e or '')[-1500:])
        return None
    return out


def run(chk, exe, args, timeout=400):
    rc, out, err, dt = vf.sh([exe] + args, timeout=timeout, env=ENV, inp=open(vf.VERIF + '/spec/names.txt').read())
    n = 0
    for l in out.splitlines():
        m = re.match(r'FAIL key=(\S+) arg=\[(.*?)\] msg=(.*)', l)
        if m:
            chk.violate(m.group(1), '%s: %s' % (m.group(2)[:200], m.group(3)), True,
                        l + '\n' + (err or '')[:2000] + '\nreplay: build native/names.c against /repo/lib and run `names %s` '
                        'with spec/names.txt as input' % ' '.join(args))
        m = re.match(r'DONE evals=(\d+)', l)
        if m:
            n = int(m.group(1))
    if not n and not re.search(r'(?m)^DONE', out):
        if rc is None:
            chk.notes.append('lookup driver: no answer for %s' % args)
        elif 'runtime error' in (err or ''):
            chk.violate('memory', 'index outside a table: ' + err[:300], True, err[:3000])
        elif 'Sanitizer' in (err or '') or rc < 0:
            chk.violate('crash', 'lookup driver dies (%s): %s' % (rc, (err or '')[:300]), True, (err or '')[-3000:])
        else:
            chk.notes.append('lookup driver stopped early (%s)' % rc)
    return n


def native_names(chk, scale):
    exe, fast = vf.pmap(lambda a: build(chk, a), [True, False])
    if not exe or not fast:
        return
    step = 1 << 29
    jobs = [(exe, ['names', str(chk.seed), str(scale)])] + \
           [(fast, ['cp', '1', str(lo), str(lo + step)]) for lo in range(-(1 << 31), 1 << 31, step)] + \
           [(exe, ['cp', '1', '-70000', '140000'])]
    ns = vf.pmap(lambda j: run(chk, *j), jobs)
    chk.bounded.append('exhaustive execution: code page lookup for every int (%d calls)' % sum(ns[1:-1]))
    chk.bounded.append('name lookup and canonicalization against the list of names: %d spellings (all listed names, all names of '
                       'the generated table, all edits of one character, random and long strings)' % ns[0])
    chk.coverage['lookup_calls'] = sum(ns)


def native_open(chk, scale):
    exe = build(chk, True)
    if exe:
        n = run(chk, exe, ['open', str(chk.seed), str(scale)])
        chk.bounded.append('opening: all pairs of indexes and flags, all pairs of code pages, sampled spellings and suffixes, '
                           'allocation failures: %d calls' % n)
        chk.coverage['open_calls'] = n


def read(name):
    return open(vf.VERIF + '/contracts/' + name).read()


ERRNO = '#define E2BIG 7\n#define ENOMEM 12\n#define EINVAL 22\n#define EILSEQ 84\n'
CHECKS = vf.SAFETY
FITS, CANON, ALIASES, LOOKUP, CODEPAGE = 'name_fits', 'reiconv_name_canonicalize', 'aliases_lookup', 'reiconv_lookup_from_name', \
    'reiconv_lookup_from_codepage'


def consts(chk):
    """sizes the contracts mention, from the current tree"""
    u = chk.src.unit
    fn = u.functions()
    longest = max(len(l.split()[1]) for l in open(vf.VERIF + '/spec/names.txt') if l.startswith('name '))
    m = re.search(r'char\s+\w+\s*\[([^\]]+)\]', fn[LOOKUP].text) if LOOKUP in fn else None
    buf = eval(m.group(1), {}) if m and re.match(r'[\d\s+*()-]+$', m.group(1)) else longest + 32
    d = {'LONGEST': longest, 'NAME_BUFFER': buf, 'CANON_MAX': buf + 9, 'NENC': len(chk.src.encodings)}
    for k, n in (('FITS', FITS), ('CANON', CANON), ('ALIASES', ALIASES)):
        if n in fn:
            d[k] = n
    return d


def text(d):
    return ''.join('#define %s %s\n' % kv for kv in d.items())


def prove_names(chk, timeout=100):
    c = consts(chk)

    def canon():
        d = dict({k: v for k, v in c.items() if k != 'FITS'}, RUN_MAX=10)
        pf = cut.Proof(chk, 'canon', [CANON], read('open_pre.h'), text(d) + read('canon.h'), exprs=['g_cp', 'g_bp', 'g_k', 'g_s', 'g_o', 'g_end'])
        pf.decide([('ob_canonicalize', CANON)], timeout=timeout, extra=['--slice-formula', '--arrays-uf-always'], iters=11)

    def fits():
        d = dict({k: v for k, v in c.items() if k != 'CANON'}, RUN_MAX=80)
        pf = cut.Proof(chk, 'fits', [FITS], text(d) + read('open_pre.h'), read('canon.h'), exprs=['g_cp', 'g_k', 'g_s', 'g_end'],
                       extra_cands=['g_k < NAME_BUFFER', 'g_k <= LONGEST', 'g_k < NAME_BUFFER - 1'])
        pf.decide([('ob_fits', FITS)], timeout=timeout, extra=['--slice-formula', '--arrays-uf-always'], iters=81)

    def lookup():
        pf = cut.Proof(chk, 'lookup', [LOOKUP], read('open_pre.h'), text(c) + read('lookup.h'), stop=(FITS, CANON, ALIASES),
                       cut=lambda n: False)
        pf.decide([('ob_lookup', LOOKUP)], timeout=timeout, unwind=c['CANON_MAX'] + 3, iters=c['CANON_MAX'] + 2)

    def alias():
        u = chk.src.unit
        t = u.functions()[ALIASES].text
        tab = re.search(r'return\s*&\s*(\w+)\s*\[', t)
        pool = next((n for n in u.by_name if n == 'stringpool_contents'), None)
        if not tab or not pool:
            raise cut.CutError('alias tables not found')
        pf = cut.Proof(chk, 'alias', [ALIASES, pool], read('open_pre.h'),
                       text(dict(c, ALIAS_TABLE=tab.group(1), STRINGPOOL=pool)) + read('alias.h'), stop=('strcmp',), cut=lambda n: False)
        pf.decide([('ob_alias', ALIASES)], timeout=timeout, unwind=c['CANON_MAX'] + 3)
    def codepage():
        cps = {}
        for l in open(vf.VERIF + '/spec/names.txt'):
            w = l.split()
            if w and w[0] == 'codepage':
                cps[int(w[1])] = w[2]
        idx = {e.name: e.index for e in chk.src.encodings}
        spec = 'static int spec_cp(int c)\n{\n    switch (c)\n    {\n' + ''.join(
            '    case %d: return %d;\n' % (k, idx[v]) for k, v in sorted(cps.items()) if v in idx) + '    }\n    return -1;\n}\n'
        pf = cut.Proof(chk, 'codepage', [CODEPAGE], read('open_pre.h'), spec + read('codepage.h'), cut=lambda n: False)
        pf.decide([('ob_codepage', CODEPAGE)], timeout=timeout)
    vf.pmap(lambda x: cut.attempt(chk, *x), ((CODEPAGE, codepage), (CANON, canon), (FITS, fits), (LOOKUP, lookup), (ALIASES, alias)))
    chk.assumptions.append('strcmp as the C standard says; counting axioms of contracts/canon.h; strings below 2^30 bytes')


def loop_names(chk):
    text = '\n'.join(d.text for d in chk.src.unit.decls if d.is_func and 'reiconv_open_from_index' in d.defines)
    m1, m2 = re.search(r'loop_convert\s*=\s*&?\s*(\w+)\s*;', text), re.search(r'loop_reset\s*=\s*&?\s*(\w+)\s*;', text)
    if not m1 or not m2:
        raise cut.CutError('loop functions not found')
    return m1.group(1), m2.group(1)


def prove_open(chk, timeout=100):
    c = consts(chk)
    lc, lr = loop_names(chk)
    fn = chk.src.unit.functions()

    table = '{%s}' % ', '.join('{{(void *)%d, (void *)%d}, {(void *)%d, (void *)%d}}' % tuple(16 * i + 4 * k + 4 for k in range(4))
                               for i in range(c['NENC']))

    def one(ob, fname, define, stop, unwind=200, fits=True):
        def go():
            d = dict(c, TABLE='all_encodings', LOOP_CONVERT=lc, LOOP_RESET=lr)
            d.pop('CANON', None)
            d.pop('ALIASES', None)
            if not fits or FITS not in fn:
                d.pop('FITS', None)
            pf = cut.Proof(chk, 'open', [fname, 'conv_struct', 'reiconv_t', 'REICONV_DISCARD_ILSEQ', 'all_encodings', lc, lr],
                           read('open_pre.h'), ERRNO + text(d) + '#define %s\n' % define + read('open.h'),
                           stop=(lc, lr) + stop, opaque=('all_encodings',), sizes={'all_encodings': table}, cut=lambda n: False)
            pf.decide([(ob, fname)], timeout=timeout, unwind=unwind, iters=unwind)
        return fname, go
    jobs = [one('ob_open_index', 'reiconv_open_from_index', 'OB_INDEX', ()),
            one('ob_open_codepage', 'reiconv_open_from_codepage', 'OB_CP', (CODEPAGE,)),
            one('ob_open_name', 'reiconv_open_from_name', 'OB_NAME', (LOOKUP,)),
            one('ob_open', 'reiconv_open', 'OB_OPEN', (LOOKUP, CANON, FITS))]
    vf.pmap(lambda x: cut.attempt(chk, *x), jobs)
    chk.assumptions.append('callee contracts of opening: lookup and canonicalization as decided by C08; the allocator as the C '
                           'standard says; indexes passed to reiconv_open_from_index are valid (its documented precondition)')
