"""Shared machinery of the checks: scratch space, the verifier (CBMC), native replays, evidence."""
import atexit
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import extract  # noqa: E402

NCPU = int(os.environ.get('VERIF_JOBS', '0')) or min(8, os.cpu_count() or 4)
SAFETY = ['--no-standard-checks', '--bounds-check', '--pointer-check', '--div-by-zero-check']


class Result:
    """outcome of one verifier run (one obligation group)"""

    def __init__(self, name, func, backend='CBMC 6.11 (SAT, MiniSat 2.2.1)'):
        self.name = name
        self.func = func
        self.backend = backend
        self.status = 'error'     # proved | failed | undecided | error
        self.n = 0                # obligations in the group
        self.unknown = []
        self.failed = []          # [(id, description)]
        self.time = 0.0
        self.out = ''
        self.deferred = 0         # obligations left to another named check
        self.bounded = None       # text of the bound, if any
        self.trace = {}
        self.cmd = ''

    def brief(self):
        return {'group': self.name, 'function': self.func, 'status': self.status, 'obligations': self.n,
                'seconds': round(self.time, 2), **({'bound': self.bounded} if self.bounded else {})}


def sh(cmd, timeout=None, cwd=None, env=None, inp=None):
    t = time.time()
    try:
        r = subprocess.run(cmd, capture_output=True, text=True, errors='replace', timeout=timeout, cwd=cwd, env=env,
                           input=inp)
        return r.returncode, r.stdout, r.stderr, time.time() - t
    except subprocess.TimeoutExpired as e:
        def dec(x):
            return x.decode(errors='replace') if isinstance(x, bytes) else (x or '')
        return None, dec(e.stdout), dec(e.stderr), time.time() - t


_LINE = re.compile(r'^\[([^\]]+)\] (?:file \S+ )?(?:line \d+ )?(?:function \S+ )?(.*): (SUCCESS|FAILURE|UNKNOWN|ERROR)$')


def cbmc(gb, func, name=None, unwind=40, timeout=100, extra=(), trace_vars=None, bounded=None, checks=SAFETY,
         trace=True, ignore=None, uwa=True):
    """all obligations of `func`; an assertion whose text starts with "reach." must FAIL (vacuity guard)"""
    res = Result(name or func, func)
    res.bounded = bounded
    cmd = ['cbmc', gb, '--function', func, '--unwind', str(unwind), '--unwinding-assertions' if uwa else '--no-unwinding-assertions', '--object-bits', '12',
           '--drop-unused-functions'] + list(checks) + list(extra)
    res.cmd = ' '.join(cmd)
    rc, out, err, dt = sh(cmd, timeout=timeout)
    res.time = dt
    if rc is None:
        res.status = 'undecided'
        res.out = 'solver time limit of %d s reached' % timeout
        return res
    reached, unreached = 0, []
    res.deferred = 0
    for line in out.splitlines():
        m = _LINE.match(line)
        if not m:
            continue
        pid, desc, st = m.groups()
        if desc.startswith('reach.'):
            if st == 'FAILURE':
                reached += 1
            else:
                unreached.append(desc)
            continue
        if st != 'SUCCESS' and ignore and ignore(pid, desc):
            res.deferred += 1       # decided elsewhere (see the caller), not counted as discharged
            continue
        res.n += 1
        if st == 'FAILURE':
            res.failed.append((pid, desc))
        elif st != 'SUCCESS':
            res.unknown.append((pid, desc))
    if 'VERIFICATION' not in out or rc not in (0, 10):
        res.status = 'error'
        res.out = out[-2000:] + err[-2000:]
        return res
    if res.failed:
        unw = [f for f in res.failed if 'unwinding assertion' in f[1] or 'recursion unwinding' in f[1]]
        res.status = 'failed'
        res.out = '\n'.join('%s %s' % f for f in res.failed[:40])
        if len(unw) == len(res.failed):
            res.status = 'undecided'     # only the unwinding limit was hit: nothing decided
        elif trace:
            # a state outside the invariant first: the invariant may merely be too small
            if any(f[1].startswith('I.direct') for f in res.failed):
                return res
            pid = sorted([f for f in res.failed if f not in unw], key=lambda f: (not re.match(r'[DEF]\.state', f[1]), f[1].startswith('role.')))[0][0]
            rc, tout, terr, dt = sh([c for c in cmd if c != '--slice-formula'] + ['--trace', '--property', pid, '--json-ui'], timeout=timeout)
            res.time += dt
            res.trace = parse_trace(tout or '')
    elif res.unknown:
        res.status = 'undecided'
        res.out = '\n'.join('UNKNOWN %s %s' % f for f in res.unknown[:20])
    elif not reached or unreached:
        res.status = 'error'
        res.out = 'vacuous: not reached: %s\n' % unreached + out[-1500:]
    else:
        res.status = 'proved'
    return res


def parse_trace(text):
    """last value of every variable assigned in the trace: {lhs: value-string}"""
    vals = {}
    try:
        js = json.loads(text)
    except ValueError:
        return vals
    for o in js:
        if not isinstance(o, dict):
            continue
        for r in o.get('result', []):
            for st in r.get('trace', []):
                if st.get('stepType') == 'assignment' and 'value' in st:
                    _flat(st.get('lhs', ''), st['value'], vals)
    return vals


def _flat(lhs, v, vals):
    if 'elements' in v:
        for e in v['elements']:
            _flat('%s[%s]' % (lhs, e.get('index')), e.get('value', {}), vals)
    elif 'members' in v:
        for e in v['members']:
            _flat('%s.%s' % (lhs, e.get('name')), e.get('value', {}), vals)
    elif 'data' in v:
        lhs = re.sub(r'\[(\d+)l\]', r'[\1]', lhs)
        vals[lhs] = v['data']
        if lhs.startswith('g_q_'):
            vals.setdefault('*' + lhs, []).append(v['data'])


def num(s, default=0):
    """value of a CBMC constant such as 12, -3, 7ul, (unsigned char)5, 0x1f"""
    if s is None:
        return default
    m = re.match(r"^\s*(?:\([^()]*\)\s*)?(-?(?:0x[0-9a-fA-F]+|\d+))", str(s))
    if not m:
        return default
    return int(m.group(1), 0)


def goto_cc(src, out, extra=()):
    rc, o, e, dt = sh(['goto-cc', src, '-o', out] + list(extra), timeout=300)
    if rc != 0:
        return False, (o + e)[-3000:]
    return True, ''


def pmap(fn, items, workers=None):
    items = list(items)
    if not items:
        return []
    with ThreadPoolExecutor(workers or NCPU) as ex:
        return list(ex.map(fn, items))


class Check:
    def __init__(self, prop, tier):
        self.prop = prop
        self.tier = tier
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.t0 = time.time()
        self.scratch = tempfile.mkdtemp(prefix='verif_%s_' % prop.lower())
        atexit.register(shutil.rmtree, self.scratch, ignore_errors=True)
        self.src = extract.Source(self.scratch)
        self.groups = []          # Result objects
        self.bounded = []         # descriptions of bounded stand-ins that ran
        self.violations = []      # dicts
        self.assumptions = []
        self.notes = []
        self.coverage = {}
        self.replay_dir = os.path.join(VERIF, 'evidence', 'replay', prop)
        shutil.rmtree(self.replay_dir, ignore_errors=True)
        os.makedirs(self.replay_dir, exist_ok=True)
        self.known = self._known()
        self.known_hit = []

    def _known(self):
        out = []
        p = os.path.join(VERIF, 'known_findings.txt')
        if os.path.exists(p):
            for line in open(p):
                m = re.match(r'known: property=(\w+) key=(\S+) (.*)', line.strip())
                if m and m.group(1) == self.prop:
                    out.append((m.group(2), m.group(3)))
        return out

    def path(self, *a):
        return os.path.join(self.scratch, *a)

    def add(self, res):
        if isinstance(res, (list, tuple)):
            for r in res:
                self.add(r)
        else:
            self.groups.append(res)
        return res

    def violate(self, key, text, concrete, replay_text):
        """key: stable identification of what fails"""
        for k, d in self.known:
            if key == k or key.startswith(k + ':'):
                if k not in self.known_hit:
                    self.known_hit.append(k)
                    print('KNOWN-FINDING: property=%s %s' % (self.prop, d))
                return
        if any(v['key'] == key for v in self.violations):
            return
        name = re.sub(r'[^A-Za-z0-9_.-]+', '_', key)[:100] + '.txt'
        path = os.path.join(self.replay_dir, name)
        with open(path, 'w') as f:
            f.write('property: %s\nviolation: %s\n%s\n\n%s\n' % (self.prop, key, text, replay_text))
        self.violations.append({'key': key, 'text': text, 'concrete': concrete, 'replay': path})

    def finish(self, level, level_note='', trusted=(), rule=None):
        proved = [g for g in self.groups if g.status == 'proved']
        nobl = sum(g.n for g in self.groups)
        disch = sum(g.n for g in proved if not g.bounded)
        bnd = sum(g.n for g in proved if g.bounded)
        und = [g for g in self.groups if g.status in ('undecided', 'error')]
        ev = {
            'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': level,
            'coverage': {
                'obligations': nobl, 'discharged': disch, 'discharged_with_stated_bound': bnd,
                'groups': len(self.groups), 'groups_proved': len(proved), 'groups_undecided': len(und),
                'functions_under_contract': sorted({g.func for g in self.groups}),
                'backend': sorted({g.backend for g in self.groups}),
                'solver_seconds': round(sum(g.time for g in self.groups), 1),
                'checker_cmd': self.groups[0].cmd if self.groups else '',
                'trusted_base': list(trusted) or ['gcc preprocessor', 'lib/slicer.py (top-level extraction)', 'goto-cc and CBMC 6.11',
                                                  'the contract files under /verif/contracts'],
                'undecided': [g.brief() | {'why': g.out[:300]} for g in und][:80],
                'bounded_stand_ins': self.bounded,
                'per_group': [g.brief() for g in self.groups][:1500],
                **self.coverage,
            },
            'assumptions': self.assumptions,
            'notes': self.notes + ([level_note] if level_note else []),
            'known_findings': self.known_hit,
            'wall_s': round(time.time() - self.t0, 1),
            'violations': len(self.violations),
            'violation_list': [{'key': v['key'], 'what': v['text'], 'failing_input': v['concrete'], 'replay': v['replay']}
                               for v in self.violations],
        }
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        print('%s %s: %d obligation groups, %d proved (%d obligations discharged, %d with a stated bound), %d undecided, '
              '%d violations, %.0f s' % (self.prop, self.tier, len(self.groups), len(proved), disch, bnd, len(und),
                                         len(self.violations), time.time() - self.t0))
        # concrete ones first
        for v in sorted(self.violations, key=lambda v: not v['concrete']):
            print('  ' + v['text'].replace('\n', ' ')[:400])
            print('VIOLATION property=%s replay=%s%s' % (self.prop, v['replay'],
                                                         '' if v['concrete'] else ' no-failing-input-found'))
        sys.stdout.flush()
        return 1 if self.violations else 0


def write_failure(prop, tier, text):
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    ev = {'property': prop, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'other',
          'coverage': {'explanation': 'nothing decided: ' + text[-1500:]}, 'wall_s': 0, 'violations': 0}
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
