"""Converter contracts over all encodings: native runs of the contract clauses, and the proof obligations."""
import json
import os
import re
import threading
import time

import cut
import iterate
import vf

TAB = re.compile(r'static\s+const\s+((?:unsigned\s+)?\w+)\s+(\w+)\s*((?:\[[^\]]+\])+)\s*=\s*\{.*?\}\s*;', re.S)
HAVOC_LIMIT = 3000

# clauses of the runtime monitor that speak about memory and accounting
SAFETY_CLAUSES = {'memory', 'crash', 'D.acc', 'D.out', 'D.frame', 'D.progress', 'E.acc', 'E.frame', 'R.acc', 'R.frame',
                  'F.acc', 'F.out', 'F.frame', 'timeout'}


def unit_size(name):
    if re.match(r'(ucs4|utf32)', name):
        return 4
    if re.match(r'(ucs2|utf16)', name):
        return 2
    return 1


class Native:
    """results of the runtime monitor for one encoding"""

    def __init__(self):
        self.fails = []
        self.dst = []
        self.est = []
        self.dpath = []
        self.epath = []
        self.look = None
        self.evals = 0
        self.done = set()


def build_mon(chk, asan):
    with open(chk.path('enc_names.inc'), 'w') as f:
        f.write(''.join('"%s",\n' % e.name for e in chk.src.encodings))
    out = chk.path('mon_asan' if asan else 'mon')
    fl = ['-O1', '-g', '-fsanitize=address', '-fsanitize=bounds', '-fno-sanitize-recover=bounds'] if asan else ['-O2']
    rc, o, e, dt = vf.sh(['gcc', '-std=gnu17', '-w', '-I' + chk.scratch] + fl + chk.src.cflags +
                         [vf.VERIF + '/native/mon.c', '-o', out], timeout=300)
    if rc != 0:
        chk.notes.append('runtime monitor does not build: ' + (e or '')[-1500:])
        return None
    return out


ASAN_ENV = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=3')


def run_native(chk, mon, encs, modes=('dec', 'enc'), budget=0.3, limit=60):
    """-> {encoding name: Native}"""
    res = {e.name: Native() for e in encs}
    lock = threading.Lock()

    def job(a):
        e, mode = a
        rc, out, err, dt = vf.sh([mon, mode, str(e.index), str(budget), str(chk.seed)], timeout=limit, env=ASAN_ENV)
        r = res[e.name]
        with lock:
            for line in out.splitlines():
                if line.startswith('FAIL '):
                    m = re.match(r'FAIL enc=(\S+) ob=(\S+) (.*?) msg=(.*)', line)
                    if m:
                        r.fails.append((m.group(2), m.group(4), m.group(3)))
                elif line.startswith('DST '):
                    w = line.split()
                    r.dst.append((int(w[1], 16), int(w[2], 16)))
                    r.dpath.append((int(w[3]), int(w[4]), w[5]))
                elif line.startswith('EST '):
                    w = line.split()
                    r.est.append(int(w[1], 16))
                    r.epath.append((int(w[2]), int(w[3], 16)))
                elif line.startswith('RT '):
                    r.fails.append(('roundtrip', line[3:], line[3:]))
                elif line.startswith('STAT '):
                    m = re.search(r'look=(\d+)', line)
                    if m:
                        r.look = int(m.group(1))
                elif line.startswith('DONE '):
                    r.done.add(mode)
                    r.evals += int(re.search(r'evals=(\d+)', line).group(1))
            if rc is None:
                r.fails.append(('timeout', 'the converter does not return (%d s)' % limit, mode))
            elif 'DONE' not in out and not r.fails:
                r.fails.append(('crash', 'the monitor died (%s) %s' % (rc, err[-600:]), mode))
            elif err and 'ERROR: AddressSanitizer' in err:
                r.fails = [(a, b, c + '\n' + err[:1500]) if a == 'memory' else (a, b, c) for a, b, c in r.fails]
            elif err and 'runtime error' in err:
                r.fails.append(('memory', 'index outside a table', err[:800]))
    jobs = [(e, m) for e in encs for m in modes]
    heavy = {'utf7': 0, 'iso2022_cn_ext': 1, 'iso2022_jp2': 2, 'iso2022_jp3': 2, 'cp1258': 3, 'tcvn': 3}
    jobs.sort(key=lambda a: heavy.get(a[0].name, 9))
    vf.pmap(job, jobs)
    return res


def path_text(n, kind, val):
    """how the failing state is reached through the public interface"""
    try:
        if kind == 'd':
            i = n.dst.index(val)
            steps = []
            while i > 0:
                par, used, b = n.dpath[i]
                steps.append('feed %s (of which %d bytes are consumed by this step)' % (b, used))
                i = par
            return '\n'.join(reversed(steps)) or 'the initial state'
        i = n.est.index(val)
        steps = []
        while i > 0:
            par, wc = n.epath[i]
            steps.append('U+%04X' % wc)
            i = par
        return 'encode ' + ' '.join(reversed(steps)) if steps else 'the initial state'
    except (ValueError, IndexError):
        return '(state not reached by the native search)'


def report_native(chk, nat, clauses=None, what='converter contract'):
    for name, r in sorted(nat.items()):
        for ob, msg, detail in r.fails:
            if clauses is not None and ob not in clauses:
                continue
            m = re.search(r'istate=(\w+) border=(\w+)', detail)
            p = ''
            if m and 'what=decode' in detail:
                p = 'state reached by:\n' + path_text(r, 'd', (int(m.group(1), 16), int(m.group(2), 16)))
            m2 = re.search(r'ostate=(\w+)', detail)
            if m2 and ('what=encode' in detail or 'what=reset' in detail):
                p = 'state reached by:\n' + path_text(r, 'e', int(m2.group(1), 16))
            chk.violate('%s:%s' % (name, ob), '%s of encoding %s: %s (%s)' % (what, name, msg, detail[:200]), True,
                        'encoding %s, clause %s: %s\nfailing input (real function of the current tree): %s\n%s\n'
                        'replay: build native/mon.c against /repo/lib and run `mon one-dec|one-enc %s`' %
                        (name, ob, msg, detail, p, name))


def slice_src(unit, names, havoc, stops=()):
    """verbatim slice; big tables with unknown contents if havoc; functions in stops replaced by their contracts"""
    import leaf
    src = unit.slice(names, stop=tuple(stops))
    hv = []
    if havoc:
        def sub(m):
            if len(m.group(0)) < HAVOC_LIMIT:
                return m.group(0)
            hv.append(m.group(2))
            return 'extern %s %s%s;' % m.group(1, 2, 3)
        src = TAB.sub(sub, src)
    src += '/*STUBS*/\n'
    for n in stops:
        if re.search(r'\b%s\s*\(' % n, src):
            src += leaf.stub(stops[n])
    return src, hv


def widen(states, v):
    """states plus v, generalised: the step from the nearest known state to v is applied to every state that agrees with
    that state on the bits it changes (pairs are packed by the caller)"""
    u = min(states, key=lambda x: bin(x ^ v).count('1'))
    d = u ^ v
    return states + [y for y in dict.fromkeys(x ^ d for x in states if x & d == u & d) if y not in states]


class Prover:
    def __init__(self, chk, nat):
        self.chk = chk
        self.nat = nat
        self.unit = chk.src.unit
        self.havoced = {}
        self.frame_only = False
        self.leaves = None
        self.frame_limit = 20 if chk.tier == 'quick' else 300
        self.limit = 60 if chk.tier == 'quick' else 600

    def slice(self, e, havoc):
        names = [x for x in (e.mbtowc, e.flushwc, e.wctomb, e.reset, 'conv_struct', 'state_t', 'ucs4_t') if x]
        stops = {} if not self.leaves or not havoc else {n: l for n, l in self.leaves.proved.items() if n not in names}
        return slice_src(self.unit, names, havoc, stops)

    def loops_over_input(self, e):
        t = self.unit.functions().get(e.mbtowc)
        if not t:
            return False
        try:
            return iterate.over_input(t.text)
        except (cut.CutError, ValueError):
            return True

    def defs(self, e, dst, est, K, nmax):
        d = '#define DEC %s\n#define ENC %s\n#define UNIT %d\n#define K %d\n' % (e.mbtowc, e.wctomb, unit_size(e.name), K)
        if e.flushwc:
            d += '#define FLUSH %s\n' % e.flushwc
        if e.reset:
            d += '#define RST %s\n' % e.reset
        if nmax:
            d += '#define NMAX %d\n' % nmax
        d += '#define IN_DST(i,b) (%s)\n' % ' || '.join('((i)==%uu&&(b)==%uu)' % (a, b) if 0 else
                                                       '((i)==%du&&(b)==%du)' % (a, b) for a, b in dst)
        d += '#define IN_EST(o) (%s)\n' % ' || '.join('((o)==%du)' % a for a in est)
        if self.frame_only:
            d += '#define FRAME_ONLY\n'
        return d

    @staticmethod
    def func_of(e, ob):
        return e.mbtowc if ob in ('ob_dec', 'ob_redo', 'ob_prefix', 'ob_progress') else \
            e.flushwc if ob == 'ob_flush' else e.reset if ob == 'ob_reset' else e.wctomb

    def compile(self, e, tag, src, defs):
        f = self.chk.path('%s_%s.c' % (e.name, tag))
        with open(f, 'w') as o:
            o.write(src + defs + '#include "%s/contracts/conv.h"\n' % vf.VERIF)
        gb = f[:-2] + '.gb'
        ok, err = vf.goto_cc(f, gb)
        return gb if ok else None, err

    def prove(self, e, obs, havoc=True):
        """obs: names of obligation groups; -> list of Result"""
        n = self.nat.get(e.name)
        dst = list(n.dst) if n and n.dst else [(0, 0)]
        est = list(n.est) if n and n.est else [0]
        src, hv = self.slice(e, havoc)
        loops = self.loops_over_input(e)
        look = (n.look if n and n.look else 4)
        K = max(2, look)
        nmax = None
        if loops:
            K = max(K, 8)
            nmax = K
        out = []
        todo = list(obs)
        again = []
        if loops and havoc and self.frame_only:
            try:
                r = iterate.frame(self, e)
                if r.status == 'proved':
                    return [r]
            except cut.CutError as ex:
                self.chk.notes.append('%s: %s, loop unwound instead' % (e.mbtowc, ex))
        if loops and havoc and not self.frame_only and any(o in iterate.OBS for o in obs):
            try:
                done, dst, rs = iterate.prove(self, e, [o for o in obs if o in iterate.OBS], n, dst)
                out += list(done.values()) + [r for r in rs if r.status == 'proved' and r not in done.values()]
                todo = [o for o in todo if o not in done]
            except cut.CutError as ex:
                self.chk.notes.append('%s: %s, loop unwound instead' % (e.mbtowc, ex))
        for rnd in range(16):
            if not todo:
                break
            gb, err = self.compile(e, '%s%d%d' % (obs[0], rnd, havoc), src, self.defs(e, dst, est, K, nmax))
            if not gb:
                r = vf.Result('%s.%s' % (e.name, '+'.join(todo)), e.mbtowc)
                r.out = err
                r.enc = e
                return out + [r]
            again = []
            grow = False
            k_now = K
            for ob in todo:
                if (ob == 'ob_flush' and not e.flushwc) or (ob == 'ob_reset' and not e.reset):
                    continue
                func = self.func_of(e, ob)
                for flags in ((['--arrays-uf-always'], []) if hv else ([],)):
                    r = self.call(e, gb, ob, func, K, nmax, hv, flags)
                    if r.status != 'error':
                        break
                r.func = func
                r.enc = e
                r.havoced = hv or (['contracts of callees'] if self.leaves and havoc else [])
                if r.status == 'failed':
                    names = [d for _, d in r.failed]
                    if any(d.startswith('D.state') or d.startswith('F.state') for d in names):
                        v = self.new_state(r, 'd')
                        if v and v not in dst:
                            dst = [(x & 0xffffffff, x >> 32) for x in widen([a | b << 32 for a, b in dst], v[0] | v[1] << 32)]
                            grow = True
                            again.append(ob)
                            continue
                    if any(d.startswith('E.state') for d in names):
                        v = self.new_state(r, 'e')
                        if v is not None and v not in est:
                            est = widen(est, v)
                            grow = True
                            again.append(ob)
                            continue
                    if func == e.mbtowc and not nmax and k_now < 14 and any('d_buf' in d or 'outside object' in d for d in names):
                        K = 14
                        grow = True
                        again.append(ob)
                        continue
                out.append(r)
            if not grow:
                break
            todo = again
        for o in again:
            r = vf.Result('%s.%s' % (e.name, o), e.mbtowc)
            r.status = 'undecided'
            r.out = 'no inductive state invariant found'
            out.append(r)
        return out

    def call(self, e, gb, ob, func, K, nmax, hv, flags):
        """the loops of the converters are unwound 10 times first, more often if that is not enough"""
        big = max(40, K + 2)
        own = ['ob_dec.0', 'd_inputs.0', 'fill.0', 'fill0.0', 'ob_size.0', 'ob_size.1', 'ob_size.2']
        own += ['ob_reset.0', 'ob_reset.1', 'ob_reset.2'] if e.reset else []
        own += ['ob_it_dec.0', 'ob_it_frame.0'] if ob.startswith('ob_it_') else []
        for u in (['--unwindset', ','.join('%s:%d' % (x, big) for x in own)], []):
            lim = dict(unwind=10 if u else big)
            if self.frame_only:
                r = vf.cbmc(gb, ob, name='%s.%s' % (e.name, ob), timeout=min(self.limit, self.frame_limit),
                            extra=flags + u + ['--slice-formula'], checks=['--no-standard-checks'],
                            bounded=('at most %d input bytes per decoder call' % nmax) if nmax else None, **lim)
            else:
                r = vf.cbmc(gb, ob, name='%s.%s' % (e.name, ob), timeout=self.limit, extra=flags + u,
                            bounded=('at most %d input bytes per decoder call' % nmax) if nmax and func == e.mbtowc else None,
                            checks=[c for c in vf.SAFETY if not (hv and c == '--bounds-check')], **lim)
            if not any('unwinding assertion' in d for _, d in r.failed):
                break
        return r

    def new_state(self, r, kind):
        t = r.trace
        if kind == 'd':
            a, b = t.get('g_nist'), t.get('g_nbo')
            if a is None:
                return None
            return (vf.num(a) & 0xffffffff, vf.num(b) & 0xffffffff)
        a = t.get('g_nost')
        return None if a is None else vf.num(a) & 0xffffffff

    def replay(self, mon, r):
        """run the counterexample of a failed obligation through the runtime monitor; -> FAIL text or None"""
        t = r.trace
        e = r.enc
        if not t or not mon:
            return None
        outs = []
        if r.func in (e.wctomb, e.reset):
            outs.append(vf.sh([mon, 'one-enc', str(e.index), '0.1', '1', '%x' % (vf.num(t.get('g_ost')) & 0xffffffff),
                               '%x' % (vf.num(t.get('g_wc')) & 0xffffffff)], timeout=20, env=ASAN_ENV))
        else:
            n = min(max(vf.num(t.get('g_n'), 1), vf.num(t.get('g_n2'), 1)), 16)
            bs = ''.join('%02x' % (vf.num(t.get('g_b[%d]' % i)) & 255) for i in range(n))
            outs.append(vf.sh([mon, 'one-dec', str(e.index), '0.1', '1', '%x' % (vf.num(t.get('g_ist')) & 0xffffffff),
                               '%x' % (vf.num(t.get('g_bo')) & 0xffffffff), bs], timeout=20, env=ASAN_ENV))
        for rc, out, err, dt in outs:
            m = re.search(r'FAIL .*', out)
            if m:
                return m.group(0) + '\n' + (err or '')[:1500]
            if rc is None:
                return 'the converter does not return'
        return None


D_OBS = ('ob_dec', 'ob_flush')
E_OBS = ('ob_enc', 'ob_reset')
HINTS = json.load(open(vf.VERIF + '/contracts/hints.json'))


def hint(e, ob):
    return HINTS.get('%s.%s' % (e.name, ob), 0.3)


def prove_all(chk, nat, mon, encs, obs, budget, skip_over, what, frame_only=False, leaves=None):
    """discharge the obligations of all encodings; budget: seconds of wall clock for the whole set;
    groups expected to take longer than skip_over seconds are left to the bounded stand-in (quick tier)"""
    chk.src.unit
    pr = Prover(chk, nat)
    pr.frame_only = frame_only
    pr.leaves = leaves
    pr.limit = min(40, budget) if chk.tier == 'quick' else 900
    jobs = []
    for e in encs:
        one = [o for o in obs if o in D_OBS]
        two = [o for o in obs if o in E_OBS]
        if not frame_only and pr.loops_over_input(e):      # these share the obligations about one iteration
            one = [o for o in obs if o in D_OBS or o in iterate.OBS]
        done = one + two
        rest = [[o] for o in obs if o not in done and hint(e, o) > 1]
        small = [o for o in obs if o not in done and hint(e, o) <= 1]
        if small:
            rest.append(small)
        for g in ([one] if one else []) + ([two] if two else []) + rest:
            g = [o for o in g if not (o == 'ob_flush' and not e.flushwc) and not (o == 'ob_reset' and not e.reset)]
            if g:
                jobs.append((e, g, sum(hint(e, o) for o in g) + (hint(e, 'it') if g is one else 0)))
    jobs.sort(key=lambda j: -j[2])
    t0 = time.time()

    def job(j):
        e, g, h = j
        left = budget - (time.time() - t0)
        if h > skip_over or left < 2:
            out = []
            for o in g:
                r = vf.Result('%s.%s' % (e.name, o), pr.func_of(e, o))
                r.enc = e
                r.status = 'undecided'
                r.out = 'expected to take %d s: thorough tier only' % h if h > skip_over else 'time budget of the tier used up'
                out.append(r)
            return out
        try:
            rs = pr.prove(e, g)
        except Exception as ex:      # an extraction problem is not a verdict about the code
            r = vf.Result('%s.%s' % (e.name, '+'.join(g)), e.mbtowc)
            r.enc = e
            r.out = repr(ex)
            return [r]
        fin = []
        for r in rs:
            r.enc = e
            if r.status == 'failed':
                r.rep = pr.replay(mon, r)
                if not r.rep and getattr(r, 'havoced', None) and budget - (time.time() - t0) > 5:
                    # the counterexample may use table contents that do not exist: once more with the real tables
                    r2 = [x for x in pr.prove(e, [r.name.split('.')[1]], havoc=False)]
                    if r2:
                        r2[0].time += r.time
                        r = r2[0]
                        r.enc = e
                        if r.status == 'failed':
                            r.rep = pr.replay(mon, r)
            fin.append(r)
        return fin
    for rs in vf.pmap(job, jobs):
        for r in rs:
            chk.add(r)
            if r.status == 'failed':
                report_failed(chk, pr, r, what)
    return pr


def report_failed(chk, pr, r, what):
    """a failed obligation: a violation if the counterexample fails on the real function; a counterexample that the
    real function refutes is spurious (a state or table content that does not occur) and decides nothing"""
    e = r.enc
    n = pr.nat.get(e.name)
    rep = getattr(r, 'rep', None)
    key = '%s:%s' % (e.name, r.failed[0][1].split(':')[0])
    st = (vf.num(r.trace.get('g_ist')) & 0xffffffff, vf.num(r.trace.get('g_bo')) & 0xffffffff)
    inp = ', '.join('%s=%s' % (k, v) for k, v in sorted(r.trace.items()) if k.startswith('g_'))[:1500]
    if not rep:
        r.status = 'undecided'
        r.out = 'counterexample not confirmed by executing the real function (%s): %s' % (inp[:300], r.out[:300])
        return
    reach = path_text(n, 'd', st) if r.func == e.mbtowc and n and st in n.dst else ''
    body = ('obligation group %s of function %s\nfailed obligations:\n%s\ncounterexample: %s\n'
            'replayed on the real function:\n%s\nstate: %s\nverifier: %s\n%s\n') % (
        r.name, r.func, '\n'.join('  %s: %s' % f for f in r.failed[:20]), inp, rep, reach, r.cmd, r.out)
    chk.violate(key, '%s %s: obligation fails: %s' % (what, e.name, r.failed[0][1]), True, body)
