"""Stateless, exhaustive, deviation-bounded explorer used by every check.

A *scenario* is an ordinary function ``f(c)`` that drives the real code of /repo and asks the
explorer for every decision through ``c.choose`` / ``c.vary``.  The explorer runs the scenario once
for every sequence of decisions (depth first, re-executing from scratch), so that a finished run has
visited the whole bounded decision tree.  ``choose`` is free: all its options are always explored.
``vary`` is a deviation point: option 0 is the default and any other option costs one deviation; all
runs with at most ``bound`` deviations are explored (iterative context bounding, transferred from
preemptions to input/environment dimensions).

Oracles are plain python/numpy reference models inside the scenarios.
"""
import concurrent.futures as cf
import hashlib
import json
import multiprocessing as mp
import os
import shutil
import signal
import sys
import tempfile
import time
import traceback

import numpy as np

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class PropertyViolation(Exception):
    pass


class Divergence(Exception):
    pass


class TimeUp(BaseException):
    pass


class NextDecision(BaseException):
    """ends an execution that is only run to learn the options of its next decision"""


EXEC_LIMIT_S = 60


def _alarm(*_):
    raise TimeUp()


def canon(o):
    """stable bytes of an observation (floats to single precision)"""
    if isinstance(o, np.ndarray):
        if o.dtype.kind in 'fc':
            with np.errstate(all='ignore'):
                a = np.asarray(o).astype(np.complex64 if o.dtype.kind == 'c' else np.float32)
            return str(o.shape).encode() + a.tobytes()
        return ('%s%s' % (o.shape, o.dtype.kind)).encode() + o.tobytes()
    if isinstance(o, float):
        return ('%.9g' % o).encode()
    if isinstance(o, (list, tuple)):
        return b'[' + b','.join(canon(x) for x in o) + b']'
    if isinstance(o, dict):
        return b'{' + b','.join(canon(k) + b':' + canon(v) for k, v in sorted(o.items(), key=lambda kv: str(kv[0]))) + b'}'
    if isinstance(o, (np.floating,)):
        return ('%.9g' % float(o)).encode()
    return str(o).encode()


def h64(*parts):
    m = hashlib.blake2b(digest_size=8)
    for p in parts:
        m.update(canon(p))
        m.update(b'|')
    return int.from_bytes(m.digest(), 'little')


def short(o, n=400):
    s = str(o)
    return s if len(s) <= n else s[:n] + '...'


class Ctx:
    """one execution of a scenario"""

    def __init__(self, name, prefix, bound, stats, scratch):
        self.name = name
        self.prefix = list(prefix)
        self.points = []          # (label, n_options, is_vary, chosen, text)
        self.devs = 0
        self.peek = False
        self.bound = bound
        self.stats = stats
        self.scratch_root = scratch
        self._dir = None
        self.chain = h64(name)
        self.known_hits = []

    # ---------------------------------------------------------------- decisions
    def _pick(self, label, options, vary):
        options = list(options)
        i = len(self.points)
        if not options:
            raise Divergence('no option at %s' % label)
        if i < len(self.prefix):
            k = self.prefix[i]
            if not 0 <= k < len(options):
                raise Divergence('replay choice %s out of range at %s' % (k, label))
        else:
            k = 0
        if vary and k:
            self.devs += 1
        n = len(options) if (not vary or self.devs - (1 if k else 0) < self.bound) else 1
        if k >= n and i >= len(self.prefix):
            raise Divergence('deviation bound')
        self.points.append((label, n, vary, k, short(options[k], 80)))
        self.chain = h64(self.chain, label, k)
        if self.peek and i >= len(self.prefix) and n > 1:
            raise NextDecision()
        return options[k]

    def choose(self, label, options):
        return self._pick(label, options, False)

    def vary(self, label, options):
        return self._pick(label, options, True)

    # ---------------------------------------------------------------- observations
    def op(self, label, fn, *args, **kw):
        """run one operation of the real code; a raise is a violation"""
        self.stats['transitions'] += 1
        try:
            r = fn(*args, **kw)
        except Exception as e:
            raise PropertyViolation('%s raised %s: %s @ %s' % (
                label, type(e).__name__, short(e, 200), tb_tail(e)))
        if isinstance(r, (np.ndarray, float, int, str, tuple, list, np.generic)):
            self.stats['states'].add(h64(self.name, label, r))
        return r

    def attempt(self, label, fn, *args, **kw):
        """run an operation that is allowed to refuse; returns (ok, result or exception)"""
        self.stats['transitions'] += 1
        try:
            return True, fn(*args, **kw)
        except Exception as e:
            return False, e

    def observe(self, *obs):
        """a state reached: decision history so far is dropped, only what was observed is kept"""
        self.stats['states'].add(h64(self.name, *obs))

    def require(self, cond, msg, *args):
        self.stats['conditions'] += 1
        if not cond:
            raise PropertyViolation(msg % args if args else msg)

    def same(self, got, want, msg, rtol=0.0, atol=0.0, dtype=None):
        """array/scalar agreement with the model; NaN equals NaN"""
        self.stats['conditions'] += 1
        if np.size(got) <= 2048:
            self.stats['states'].add(h64(self.name, msg, got))
        d = diff(got, want, rtol, atol)
        if d:
            raise PropertyViolation('%s: %s' % (msg, d))
        if dtype is not None and np.asarray(got).dtype != np.dtype(dtype):
            raise PropertyViolation('%s: dtype %s, expected %s' % (msg, np.asarray(got).dtype, dtype))

    def dir(self):
        """private scratch directory of this execution, removed afterwards"""
        if self._dir is None:
            self._dir = tempfile.mkdtemp(prefix='x', dir=self.scratch_root)
        return self._dir

    def close(self):
        if self._dir is not None:
            shutil.rmtree(self._dir, ignore_errors=True)
            self._dir = None

    def trace_text(self):
        return ['%s=%s' % (p[0], p[4]) for p in self.points]


def tb_tail(e):
    tb = traceback.extract_tb(e.__traceback__)
    for f in reversed(tb):
        if '/resippy/' in f.filename:
            return '%s:%s' % (f.filename.split('/resippy/')[-1], f.name)
    return tb[-1].name if tb else '?'


def diff(got, want, rtol=0.0, atol=0.0):
    if got is None or want is None:
        return '' if got is want else 'got %s, expected %s' % (short(got), short(want))
    try:
        g = np.asarray(got)
        w = np.asarray(want)
    except Exception as e:
        return 'not comparable: %s' % e
    if g.shape != w.shape:
        return 'shape %s, expected %s (got %s, expected %s)' % (g.shape, w.shape, short(got, 150), short(want, 150))
    if g.dtype.kind in 'OSU' or w.dtype.kind in 'OSU':
        if g.tolist() == w.tolist():
            return ''
        if g.dtype.kind != 'O' and w.dtype.kind != 'O':
            return 'got %s, expected %s' % (short(got), short(want))
    try:
        if rtol == 0 and atol == 0:
            if g.dtype.kind in 'fc' or w.dtype.kind in 'fc':
                bad = ~((g == w) | ((g != g) & (w != w)))
            else:
                bad = g != w
        else:
            if g.dtype.kind not in 'fc':
                g = g.astype(float)
            if w.dtype.kind not in 'fc':
                w = w.astype(float)
            with np.errstate(all='ignore'):
                ok = (np.abs(g - w) <= atol + rtol * np.abs(w)) | (g == w) | ((g != g) & (w != w))
            bad = ~ok
    except Exception as e:
        return 'not comparable: %s (got %s, expected %s)' % (e, short(got, 100), short(want, 100))
    if not np.any(bad):
        return ''
    bad = np.asarray(bad)
    n = int(np.count_nonzero(bad))
    if g.ndim == 0:
        return 'got %s, expected %s' % (g[()], w[()])
    ix = tuple(int(v) for v in np.argwhere(bad)[0])
    return '%d of %d entries differ, first at %s: got %s, expected %s' % (n, bad.size, ix, g[ix], w[ix])


# ------------------------------------------------------------------------------------ exploration
def new_stats():
    return {'transitions': 0, 'conditions': 0, 'traces': 0, 'states': set(), 'max_points': 0,
            'dev_hist': {}, 'samples': []}


def run_one(name, fn, prefix, bound, stats, scratch, peek=False):
    c = Ctx(name, prefix, bound, stats, scratch)
    c.peek = peek
    err = None
    try:
        signal.signal(signal.SIGALRM, _alarm)
        signal.alarm(EXEC_LIMIT_S)
        fn(c)
    except PropertyViolation as e:
        err = str(e)
    except TimeUp:
        err = 'the operation did not finish within %d s' % EXEC_LIMIT_S
    except (Divergence, NextDecision) as e:
        if isinstance(e, Divergence):
            raise
    except Exception as e:
        err = 'unexpected %s: %s @ %s' % (type(e).__name__, short(e, 300), tb_tail(e))
        if os.environ.get('MC_DEBUG'):
            traceback.print_exc()
    finally:
        signal.alarm(0)
        c.close()
    if len(c.points) < len(prefix):
        raise Divergence('run ended before its prefix did: %s %s' % (name, prefix))
    return c, err


def explore_subtree(name, fn, prefix, bound, stats, scratch, max_viol, root_len=None):
    """all decision sequences extending `prefix`"""
    viols = []
    stack = [list(prefix)]
    root = len(prefix)
    while stack:
        pre = stack.pop()
        c, err = run_one(name, fn, pre, bound, stats, scratch)
        stats['traces'] += 1
        stats['max_points'] = max(stats['max_points'], len(c.points))
        stats['dev_hist'][c.devs] = stats['dev_hist'].get(c.devs, 0) + 1
        if len(stats['samples']) < 1:
            stats['samples'].append({'scenario': name, 'trace': c.trace_text(), 'verdict': err or 'holds'})
        if err:
            viols.append({'scenario': name, 'choices': [p[3] for p in c.points], 'trace': c.trace_text(),
                          'bound': bound, 'message': err})
            if len(viols) >= max_viol:
                return viols, True
        nxt = []
        for i in range(max(len(pre), root), len(c.points)):
            for alt in range(1, c.points[i][1]):
                nxt.append([p[3] for p in c.points[:i]] + [alt])
        stack.extend(reversed(nxt))
    return viols, False


def split(name, fn, bound, scratch, target):
    """disjoint subtrees (as exact prefixes) that together cover the tree"""
    leaves = [[]]
    stats = new_stats()
    for _ in range(12):
        if len(leaves) >= target:
            break
        out = []
        grew = False
        for pre in leaves:
            try:
                c, err = run_one(name, fn, pre, bound, stats, scratch, True)
            except Divergence:
                raise
            i = len(pre)
            # extend over forced points too
            while i < len(c.points) and c.points[i][1] == 1:
                i += 1
            if i >= len(c.points):
                out.append(pre)
                continue
            head = [p[3] for p in c.points[:i]]
            for alt in range(c.points[i][1]):
                out.append(head + [alt])
            grew = True
        leaves = out
        if not grew:
            break
    return leaves


_SC = {}


def _worker(job):
    name, prefix, bound, scratch, max_viol = job
    stats = new_stats()
    t = time.time()
    try:
        v, cut = explore_subtree(name, _SC[name], prefix, bound, stats, scratch, max_viol)
        return name, stats, v, cut, None, time.time() - t
    except Divergence as e:
        return name, stats, [], True, 'divergence in %s: %s' % (name, e), time.time() - t


def _init(seed_dir):
    os.environ['OMP_NUM_THREADS'] = '1'
    np.seterr(all='ignore')


class Check:
    """one property: scenarios + known findings + evidence"""

    def __init__(self, pid, title, assumptions=(), level='model_checking'):
        self.pid = pid
        self.title = title
        self.scen = []
        self.assumptions = list(assumptions)
        self.level = level

    def scenario(self, name=None, bound=(2, 3), tiers=('quick', 'thorough')):
        def deco(f):
            self.scen.append((name or f.__name__, f, bound, tiers))
            return f
        return deco


def load_known(pid):
    p = os.path.join(VERIF, 'known_findings.jsonl')
    out = []
    if os.path.exists(p):
        with open(p) as f:
            for line in f:
                line = line.strip()
                if not line or line.startswith('#') or line.startswith('fixed:'):
                    continue
                r = json.loads(line)
                if r.get('property') == pid and r.get('status', 'open') == 'open':
                    out.append(r)
    return out


def match_known(v, known):
    for r in known:
        m = r['match']
        if m.get('scenario') and m['scenario'] != v['scenario']:
            continue
        if any(s not in v['trace'] for s in m.get('trace', [])):
            continue
        if any(s not in v['message'] for s in m.get('message', [])):
            continue
        return r
    return None


def run_check(chk, tier, seed, jobs=8, only=None):
    t0 = time.time()
    thorough = tier == 'thorough'
    scratch = tempfile.mkdtemp(prefix='mc_%s_' % chk.pid, dir=os.environ.get('MC_SCRATCH', '/tmp'))
    known = load_known(chk.pid)
    total = new_stats()
    viols = []
    per = {}
    errs = []
    cut_any = False
    try:
        work = []
        for name, fn, bound, tiers in chk.scen:
            if tier not in tiers or (only and only != name):
                continue
            _SC[name] = fn
            b = bound[1] if thorough else bound[0]
            per[name] = {'bound': b, 'executions': 0, 'states': 0, 'transitions': 0, 'seconds': 0.0}
            work.append((name, fn, b))
        jobs_l = []
        os.environ['OMP_NUM_THREADS'] = '1'
        ctx = mp.get_context('fork')
        with cf.ProcessPoolExecutor(jobs, mp_context=ctx, initializer=_init, initargs=(scratch,)) as pool:
            # splitting executes prefixes; done in workers too, the code under test may crash
            try:
                for name, leaves, err in pool.map(_split_job, [(n, b, scratch, 6 * jobs) for n, f, b in work]):
                    if err:
                        errs.append(err)
                    b = per[name]['bound']
                    jobs_l += [(name, pre, b, scratch, 40) for pre in leaves]
                jobs_l.sort(key=lambda j: (len(j[1]), j[0]))
                futs = [pool.submit(_worker, j) for j in jobs_l]
                for fu in cf.as_completed(futs):
                    if fu.cancelled():
                        continue
                    name, st, v, cut, err, dt = fu.result()
                    total['transitions'] += st['transitions']
                    total['conditions'] += st['conditions']
                    total['traces'] += st['traces']
                    total['states'] |= st['states']
                    total['max_points'] = max(total['max_points'], st['max_points'])
                    for k, n in st['dev_hist'].items():
                        total['dev_hist'][k] = total['dev_hist'].get(k, 0) + n
                    p = per[name]
                    if p['executions'] == 0 and st['samples']:
                        total['samples'] += st['samples']
                    p['executions'] += st['traces']
                    p['transitions'] += st['transitions']
                    p['states'] += len(st['states'])
                    p['seconds'] = round(p['seconds'] + dt, 2)
                    viols += v
                    cut_any = cut_any or cut
                    if err:
                        errs.append(err)
                    if sum(1 for x in viols if match_known(x, known) is None) > 300:
                        cut_any = True
                        for f2 in futs:
                            f2.cancel()
            except cf.process.BrokenProcessPool:
                errs.append('the process running the code under test died')
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    viols.sort(key=lambda v: (v['scenario'], sum(1 for k in v['choices'] if k), len(v['choices']), v['choices']))
    new = []
    hits = {}
    for v in viols:
        r = match_known(v, known)
        if r is None:
            new.append(v)
        else:
            hits.setdefault(r['id'], (r, v))
    for rid, (r, v) in sorted(hits.items()):
        print('KNOWN-FINDING: property=%s %s' % (chk.pid, r['what']))
    for e in errs:
        new.append({'scenario': 'explorer', 'choices': [], 'trace': [], 'bound': 0, 'message': e})
    if total['traces'] == 0 and not new:
        new.append({'scenario': 'explorer', 'choices': [], 'trace': [], 'bound': 0, 'message': 'nothing was explored'})
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    ev = {
        'property': chk.pid, 'tier': tier, 'seed': seed, 'level': chk.level,
        'coverage': {
            'states': len(total['states']),
            'transitions': total['transitions'],
            'traces_validated_against_impl': total['traces'],
            'oracle_conditions_checked': total['conditions'],
            'deviation_histogram': {str(k): n for k, n in sorted(total['dev_hist'].items())},
            'longest_decision_sequence': total['max_points'],
            'scenarios': per,
            'rule': 'every decision sequence of each scenario with at most its bound of deviations was executed on '
                    'the real code; states = distinct observations hashed, transitions = operations of the '
                    'real code executed, traces = complete executions compared with the reference model',
            'samples': total['samples'][:12],
            'exhaustive': not cut_any and not errs,
        },
        'assumptions': chk.assumptions,
        'wall_s': round(time.time() - t0, 2),
        'violations': len(new),
    }
    with open(os.path.join(VERIF, 'evidence', '%s.json' % chk.pid), 'w') as f:
        json.dump(ev, f, indent=1)
    for v in new[:int(os.environ.get('MC_SHOW', '5'))]:
        rp = os.path.join(VERIF, 'evidence', 'replay_%s_%s.json' % (chk.pid, h64(v['scenario'], v['choices']) % 10 ** 8))
        with open(rp, 'w') as f:
            json.dump({'property': chk.pid, **v}, f, indent=1)
        print('VIOLATION property=%s replay=%s' % (chk.pid, rp))
        print('  scenario %s: %s' % (v['scenario'], v['message']))
        print('  trace: ' + '; '.join(v['trace']))
    print('%s %s: %d executions, %d states, %d transitions, %d violations (%d known), %.1fs' % (
        chk.pid, tier, total['traces'], len(total['states']), total['transitions'], len(new), len(hits),
        time.time() - t0))
    return 1 if new else 0


def _split_job(job):
    name, b, scratch, target = job
    try:
        return name, split(name, _SC[name], b, scratch, target), None
    except Divergence as e:
        return name, [], 'divergence in %s: %s' % (name, e)


def replay(chk, path):
    with open(path) as f:
        v = json.load(f)
    fn = [s for s in chk.scen if s[0] == v['scenario']][0][1]
    scratch = tempfile.mkdtemp(prefix='mc_replay_')
    try:
        msgs = []
        for _ in range(2):
            c, err = run_one(v['scenario'], fn, v['choices'], v['bound'], new_stats(), scratch)
            msgs.append(err)
        print('replayed twice, same outcome: %s' % (msgs[0] == msgs[1]))
        print(msgs[0])
        return 1 if msgs[0] else 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
