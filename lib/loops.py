"""The conversion loop, reset and the one-shot functions: whole-call runs and proof obligations."""
import os
import re
import threading

import cut
import vf

SYS_ENV = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=3:allocator_may_return_null=1')


def build_sys(chk, asan=True):
    with open(chk.path('enc_names.inc'), 'w') as f:
        f.write(''.join('"%s",\n' % e.name for e in chk.src.encodings))
    out = chk.path('sys')
    fl = ['-O1', '-g', '-fsanitize=address'] if asan else ['-O2']
    rc, o, e, dt = vf.sh(['gcc', '-std=gnu17', '-w', '-I' + chk.scratch] + fl + chk.src.cflags +
                         [vf.VERIF + '/native/sys.c', '-o', out], timeout=300)
    if rc != 0:
        chk.notes.append('whole-call driver does not build: ' + (e or '')[-1500:])
        return None
    return out


def run_sys(chk, tests, budget, clauses=None):
    """whole calls of the public functions against the specification, from every encoding"""
    exe = build_sys(chk)
    if not exe:
        return
    lock = threading.Lock()
    tot = [0, 0]

    def job(e):
        rc, out, err, dt = vf.sh([exe, tests, str(e.index), str(budget), str(chk.seed)], timeout=200, env=SYS_ENV)
        with lock:
            for line in out.splitlines():
                m = re.match(r'FAIL (.*?) clause=(\S+) detail=\[(.*?)\] msg=(.*)', line)
                if m and (clauses is None or m.group(2) in clauses):
                    w = dict(re.findall(r'(\w+)=(\S+)', m.group(1)))
                    chk.violate('%s:%s:%s' % (w.get('test'), m.group(2), w.get('from')),
                                'from %s to %s flags %s, input %s: %s (%s)' % (
                                    w.get('from'), w.get('to'), w.get('flags'), w.get('input', '')[:120], m.group(4), m.group(3)),
                                True, line + '\n' + (err or '')[:2500] +
                                '\nreplay: build native/sys.c against /repo/lib and run `sys %s %d %s %d`' %
                                (tests, e.index, budget, chk.seed))
                m = re.match(r'DONE .*evals=(\d+)', line)
                if m:
                    tot[0] += 1
                    tot[1] += int(m.group(1))
            if 'DONE' not in out and 'FAIL' not in out:
                if rc is None:
                    chk.notes.append('whole-call driver: no answer for %s' % e.name)
                else:
                    chk.violate('crash:%s' % e.name, 'whole-call driver dies (%s) for source encoding %s' % (rc, e.name), True,
                                (err or '')[-3000:])
    vf.pmap(job, chk.src.encodings)
    chk.bounded.append('whole calls of the public functions (tests %s) from %d source encodings, %d calls' %
                       (tests, tot[0], tot[1]))
    chk.coverage['whole_calls'] = chk.coverage.get('whole_calls', 0) + tot[1]


def read(name):
    return open(vf.VERIF + '/contracts/' + name).read()


ERRNO = '#define E2BIG 7\n#define ENOMEM 12\n#define EINVAL 22\n#define EILSEQ 84\n'


def prove_loops(chk, obs=('convert',), timeout=100):
    """contract of the conversion loop (any input, any output size, any number of characters) over the converter contracts"""
    def go():
        text = '\n'.join(d.text for d in chk.src.unit.decls if d.is_func and 'reiconv_open_from_index' in d.defines)
        m1, m2 = re.search(r'loop_convert\s*=\s*&?\s*(\w+)\s*;', text), re.search(r'loop_reset\s*=\s*&?\s*(\w+)\s*;', text)
        if not m1 or not m2:
            raise cut.CutError('loop functions not found')
        lc, lr = m1.group(1), m2.group(1)
        pf = cut.Proof(chk, 'loop', ['reiconv_iconv', lc, lr, 'conv_struct', 'ei_ucs4'], read('loop_pre.h'),
                       ERRNO + '#define LOOP_CONVERT %s\n#define LOOP_RESET %s\n' % (lc, lr) + read('loop_conv.h'),
                       exprs=['g_ip', 'g_left', 'g_op', 'g_room', 'g_cnt', 'g_in0', 'g_N', 'g_out0', 'g_R'],
                       hvars=['h_ip', 'h_il', 'h_op', 'h_ol'])
        todo = []
        if 'convert' in obs:
            todo += [('ob_loop_convert', lc), ('ob_loop_cursors', lc, {'extra': ['--z3']})]
        if 'reset' in obs:
            todo += [('ob_loop_reset', lr), ('ob_loop_reset_null', lr)]
        pf.decide(todo, timeout=timeout)
        chk.assumptions.append('callee contracts of the loop proof: the decoder, encoder, flush and reset functions satisfy the '
                               'clauses D.*, E.*, F.*, R.* of contracts/conv.h, decided per encoding by C01 and C02; buffers lie '
                               'below 2^50 bytes and addresses')
    cut.attempt(chk, 'conversion loop', go)


def prove_oneshot(chk, timeout=100):
    """contracts of the one-shot functions over the streaming contract"""
    ex = ['g_ip', 'g_left', 'g_op', 'g_room', 'g_o', 'g_in0', 'g_N', 'g_out0', 'g_R']

    def one(fn, ob, post, stop):
        def go():
            pf = cut.Proof(chk, 'oneshot', [fn, 'conv_struct', 'reiconv_t'], read('oneshot_pre.h'),
                           ERRNO + post, exprs=ex, stop=stop)
            pf.decide([(ob, fn)], timeout=timeout, unwind=3, extra=['--slice-formula', '--arrays-uf-always'], checks=[c for c in vf.SAFETY if c != '--pointer-overflow-check'])
        cut.attempt(chk, fn, go)
    base, st = read('oneshot.h'), ('reiconv_iconv', 'memcpy')
    one('reiconv_result_size', 'ob_result_size', '#define NO_SS\n' + base, st)
    one('reiconv_convert_static_size', 'ob_static_size', '#define NO_RS\n' + base, st)
    one('reiconv_convert', 'ob_convert', '#define NO_RS\n#define NO_SS\n' + base + read('oneshot_alloc.h'),
        st + ('reiconv_result_size', 'reiconv_convert_static_size'))
    chk.assumptions.append('callee contracts of the one-shot proofs: streaming conversion is independent of the room it is given '
                           '(C02), reports shortage only with less than 64 bytes of room unused (E.size, OK_), reset as in C07; '
                           'buffers below 2^50 bytes; memcpy and the allocator as the C standard says')
