"""C11: nothing outside the descriptor, the in/out arguments and the output buffer is written."""
import os
import re
import threading

import extract
import vf

ALLOC = re.compile(r'^[0-9a-f]* +([bBdDcC]) (\S+)$', re.M)


def native(chk):
    """the library with its data mapped read-only, on read-only input"""
    so, exe = chk.path('libro.so'), chk.path('ro')
    rc, o, e, dt = vf.sh(['gcc', '-std=gnu17', '-w', '-O1', '-shared', '-fPIC'] + chk.src.cflags +
                         [extract.REPO + '/lib/iconv.c', '-Wl,-z,now', '-Wl,-z,relro', '-o', so], timeout=300)
    if rc == 0:
        rc, o, e, dt = vf.sh(['gcc', '-std=gnu17', '-w', '-O1'] + chk.src.cflags +
                             [vf.VERIF + '/native/ro.c', so, '-Wl,-rpath,' + chk.scratch, '-o', exe], timeout=100)
    if rc != 0:
        chk.notes.append('read-only driver does not build: ' + (e or '')[-1500:])
        return
    lock, tot = threading.Lock(), [0, 0]
    names = [e.name for e in chk.src.encodings]

    def job(e):
        rc, out, err, dt = vf.sh([exe, str(e.index), str(len(names)), str(chk.seed), '0' if chk.tier == 'quick' else '1'], timeout=600)
        with lock:
            for line in out.splitlines():
                m = re.match(r'FAIL key=(\S+) call=(\S+) from=(\d+) to=(\d+) object=(\S+) (.*)', line)
                if m:
                    k = m.group(1)
                    if k in ('crash', 'read'):
                        chk.notes.append('read-only driver: ' + line[:300])     # memory safety is C01's business
                        continue
                    f, t = names[int(m.group(3)) % len(names)], names[int(m.group(4)) % len(names)]
                    kind = {'shared': 'static data of the library', 'table': 'a constant table', 'input': 'the input'}.get(k, k)
                    chk.violate('%s:%s' % (k, m.group(2)), '%s writes to %s (%s), from %s to %s: %s' % (
                        m.group(2), kind, m.group(5), f, t, m.group(6)[:150]), True,
                        line + '\nreplay: build lib/iconv.c as a shared library and native/ro.c, run `ro %d %d %d 0`' %
                        (e.index, len(names), chk.seed))
                m = re.match(r'DONE evals=(\d+)', line)
                if m:
                    tot[0] += 1
                    tot[1] += int(m.group(1))
    vf.pmap(job, chk.src.encodings)
    chk.bounded.append('calls with all data of the library and all input mapped read-only: %d encodings, %d calls' % tuple(tot))
    chk.coverage['read_only_calls'] = tot[1]


def static_state(chk):
    """obligation: no function mentions an object of static storage duration that is writable (so the only objects a
    function can reach are its arguments, its locals, what it allocates, and constants)"""
    r = vf.Result('frame.static_state', 'all functions of lib/iconv.c')
    obj = chk.path('ns.o')
    rc, o, e, dt = vf.sh(['gcc', '-std=gnu17', '-w', '-O0', '-fno-pic', '-fno-common', '-c'] + chk.src.cflags +
                         [extract.REPO + '/lib/iconv.c', '-o', obj], timeout=300)
    if rc != 0:
        r.status, r.out = 'error', (e or '')[-800:]
        chk.add(r)
        return
    r.cmd = 'gcc -c lib/iconv.c; nm (objects in writable sections) against the function bodies'
    objs = [(m.group(1), m.group(2)) for m in ALLOC.finditer(vf.sh(['nm', obj], timeout=60)[1])]
    bad = []
    funcs = {n: d.text for n, d in chk.src.unit.functions().items()}
    for k, n in objs:
        base = n.split('.')[0]
        users = [f for f, t in funcs.items() if re.search(r'\b%s\b' % re.escape(base), t)]
        r.n += 1
        w = []
        for f in users:
            t = funcs[f]
            # declared here (static local) or at file scope: written, or its address given away
            for m in re.finditer(r'(&\s*|\+\+\s*|--\s*)?\b%s\b((?:\s*\[[^\]]*\]|\s*(?:\.|->)\s*\w+)*)\s*(=(?!=)|[-+*/|&^%%]=|<<=|>>=|\+\+|--|[,)])?' % re.escape(base), t):
                pre, mid, op = m.groups()
                before = t[max(0, m.start() - 60):m.start()]
                if re.search(r'\bstatic\b[^;{}]*$', before):
                    continue            # the declaration itself
                if pre or (op and op not in ',)') or (op and not mid):
                    w.append(f)
        if k in 'bB' and users and not w:
            w = users                   # zero-initialised, used, and not seen to be assigned directly
        if w:
            bad.append((n, sorted(set(w))))
    r.n = max(r.n, 1)
    r.status = 'proved'
    if bad:
        r.status = 'failed'
        r.out = '\n'.join('static object %s is written or given away by %s' % (n, ', '.join(w)) for n, w in bad)
        if not any(v.get('key', '').startswith(('shared', 'table')) for v in chk.violations):
            chk.violate('static:%s' % bad[0][0], r.out.splitlines()[0], False, r.out)
    chk.add(r)
