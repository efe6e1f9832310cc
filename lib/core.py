"""Common runner of the runtime monitors.

A check is a python file in /verif/checks that builds a `Check`, feeds it executions of the real code in /repo (never a
copy), and calls `finish()`. The oracle is always an observation of an execution: a recorded trace, a returned value, or
the empirical law of a large number of executions.

Exit codes: 0 held on everything explored, 1 violation (with a VIOLATION line), 2 the check could not give an answer
(harness error, or a monitor that observed nothing).
"""
import os
import sys
import json
import time
import math
import traceback
import contextlib
from collections import Counter

os.environ.setdefault('JAX_PLATFORMS', 'cpu')
os.environ.setdefault('MPLBACKEND', 'Agg')
os.environ.setdefault('TF_CPP_MIN_LOG_LEVEL', '3')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, REPO)
sys.path.insert(0, VERIF)
sys.dont_write_bytecode = True

import numpy as np
import scipy.stats

SEED = int(os.environ.get('VERIF_SEED', '1'))
TIER = os.environ.get('VERIF_TIER', 'quick')
THOROUGH = TIER == 'thorough'


def known_findings(pid):
    """`known: property=<id> key=<key> <text>` lines of the committed file."""
    out = {}
    with open(os.path.join(VERIF, 'KNOWN_FINDINGS.txt')) as f:
        for line in f:
            if line.startswith('known: '):
                parts = line.split(None, 3)
                if parts[1] == f'property={pid}' and parts[2].startswith('key='):
                    out[parts[2][4:]] = parts[3].strip()
    return out


def _plain(x):
    if isinstance(x, dict):
        return {str(k): _plain(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [_plain(v) for v in x]
    if isinstance(x, (str, bool, int, type(None))):
        return x
    if isinstance(x, float):
        return x if math.isfinite(x) else repr(x)
    try:
        a = np.asarray(x)
        if a.size > 200:
            return {'shape': list(a.shape), 'head': _plain(a.ravel()[:50].tolist())}
        return _plain(a.tolist())
    except Exception:
        return repr(x)[:500]


def from_repo(e):
    """Does the exception come out of the code under test (a frame of it is on the stack)?"""
    seen = set()
    while e is not None and id(e) not in seen:
        seen.add(id(e))
        if any(f.filename.startswith(REPO + '/') for f in traceback.extract_tb(e.__traceback__)):
            return True
        e = e.__cause__ or e.__context__
    return False


class Inconclusive(Exception):
    pass


class Check:
    def __init__(self, pid, rule, assumptions=()):
        self.pid, self.rule, self.assumptions = pid, rule, list(assumptions)
        self.t0 = time.time()
        self.seed, self.tier, self.thorough = SEED, TIER, THOROUGH
        self.rng = np.random.default_rng([SEED, int(pid[1:]), 77 if THOROUGH else 7])
        self.evaluations = 0
        self.distinct = set()
        self.events = Counter()
        self.groups = Counter()
        self.samples = []
        self.violations = []
        self.known_hit = {}
        self.known = known_findings(pid)
        self.info = {}
        self.stage2 = 0
        self.part = (0, 1)

    # ---- bookkeeping -------------------------------------------------------------------------------------------
    def key(self):
        import jax
        return jax.random.PRNGKey(int(self.rng.integers(2 ** 31 - 1)))

    def case(self, group, desc, nontrivial=True, n=1):
        """Record one monitored execution. `desc` identifies it (distinctness is by group + desc)."""
        self.evaluations += n
        self.groups[group] += n
        if nontrivial:
            self.distinct.add((group, repr(_plain(desc))[:400]))
        if sum(s['group'] == group for s in self.samples) < 2 and len(self.samples) < 40:
            self.samples.append({'group': group, 'case': _plain(desc)})

    def ev(self, name, n=1):
        self.events[name] += int(n)

    def fail(self, what, kf=None, **data):
        """Report a violation. `kf` identifies a specific failing input / call site in the known-findings file."""
        if kf is not None and kf in self.known:
            self.known_hit[kf] = self.known[kf]
            return
        if len(self.violations) >= 25:
            return
        self.violations.append({'what': what, **_plain(data)})
        print(f'[{self.pid}] broken: {what} ' + json.dumps(_plain(data))[:600], flush=True)

    def expect(self, ok, what, kf=None, **data):
        self.ev('assertions')
        ok = bool(ok)
        if not ok:
            self.fail(what, kf=kf, **data)
        return ok

    def close(self, got, want, what, rtol=1e-6, atol=1e-9, kf=None, **data):
        """Element-wise comparison of an observed value against the oracle's (shape included)."""
        self.ev('assertions')
        got, want = np.asarray(got), np.asarray(want)
        if got.shape != want.shape:
            self.fail(what + ' (shape)', kf=kf, got_shape=got.shape, want_shape=want.shape, **data)
            return False
        g, w = got.astype(complex if np.iscomplexobj(got) else float), want.astype(
            complex if np.iscomplexobj(want) else float)
        if not np.allclose(g, w, rtol=rtol, atol=atol, equal_nan=False):
            bad = ~np.isclose(g, w, rtol=rtol, atol=atol)
            idx = tuple(int(i) for i in np.argwhere(bad)[0]) if g.ndim else ()
            self.fail(what, kf=kf, index=idx, got=g[idx] if g.ndim else g, want=w[idx] if w.ndim else w,
                      max_abs_err=float(np.nanmax(np.abs(g - w))) if g.size else 0., **data)
            return False
        return True

    @contextlib.contextmanager
    def guard(self, what, kf=None, **data):
        """Real code inside: an exception on an input the property covers is a violation."""
        try:
            yield
        except (Inconclusive, KeyboardInterrupt, MemoryError):
            raise
        except Exception as e:
            tb = traceback.format_exc()
            if from_repo(e):
                self.fail(f'{what}: raised {type(e).__name__}: {str(e)[:300]}', kf=kf, traceback=tb[-1500:], **data)
            else:
                raise

    # ---- statistical oracles -----------------------------------------------------------------------------------
    def law(self, name, draw, probs, R=200_000, p1=1e-3, p2=1e-9, factor=8, kf=None, **data):
        """The empirical law of the category index returned by `draw(key, R) -> int array (R, )` must be `probs`.

        Two stages: a suspicious first sample is only reported when an independent, `factor` times larger one
        confirms it, hence the false-alarm probability is about p1 * p2 per comparison whatever the random streams.
        """
        probs = np.asarray(probs, float)
        assert abs(probs.sum() - 1) < 1e-8, probs.sum()

        def stat(R_):
            c = self._counts(draw, R_, len(probs))
            return self._chi2(c, probs), c

        self.ev('law_draws', R)
        (p, why), c = stat(R)
        if p < p1:
            self.stage2 += 1
            self.ev('law_draws', R * factor)
            (p, why), c = stat(R * factor)
            if p < p2:
                probs = np.pad(probs, (0, max(0, len(c) - len(probs))))   # the last category: indices out of range
                dev = c / c.sum() - probs[:len(c)]
                i = int(np.argmax(np.abs(dev)))
                self.fail(f'{name}: empirical law differs from the exact one ({why}, p={p:.2g})', kf=kf,
                          category=i, observed=float(c[i] / c.sum()), exact=float(probs[i]), draws=int(c.sum()),
                          **data)
                return False
        return True

    def _counts(self, draw, R, ncat):
        c = np.zeros(ncat + 1)
        done = 0
        chunk = 500_000
        while done < R:
            m = min(chunk, R - done)
            x = np.asarray(draw(self.key(), m)).astype(np.int64)
            bad = (x < 0) | (x >= ncat)
            c[:ncat] += np.bincount(x[~bad], minlength=ncat)
            c[ncat] += bad.sum()
            done += m
        return c

    @staticmethod
    def _chi2(c, probs):
        n = c.sum()
        # slivers of float32 rounding (a boundary of the scheme that coincides with a sum of weights) are not outcomes
        sliver = 5e-6 * n + 1
        if c[len(probs):].sum() > sliver:
            return 0., 'outcome outside of the support'
        c = c[:len(probs)]
        z = probs < 1e-13
        if c[z].sum() > sliver:
            return 0., 'outcome of probability zero'
        e = probs * n
        big = e >= 8
        o_, e_ = list(c[big]), list(e[big])
        if (~big).any() and e[~big].sum() > 0:
            # rare outcomes are pooled; Poisson tail for the pool when it stays small
            eo, oo = e[~big].sum(), c[~big].sum()
            if eo >= 8:
                o_.append(oo), e_.append(eo)
            else:
                pt = min(1., 2 * scipy.stats.poisson.sf(oo - 1, eo)) if oo > eo else 1.
                if pt < 1e-9:
                    return pt, 'too many rare outcomes'
        if len(o_) < 2:
            return (1., '') if (len(o_) == 1 and abs(o_[0] - e_[0]) <= 8 * math.sqrt(e_[0]) + 40) else (0., 'degenerate')
        o_, e_ = np.array(o_), np.array(e_)
        x2 = ((o_ - e_) ** 2 / e_).sum()
        return float(scipy.stats.chi2.sf(x2, len(o_) - 1)), 'chi-square'

    def mean(self, name, draw, want, R=200_000, z1=3.6, z2=7., factor=8, rel_tol=0., abs_tol=0., kf=None, **data):
        """E[draw] must be `want` (vector). `draw(key, R) -> (R, d)`. Same two-stage rule as `law`; `*_tol` widens the
        band for oracles that are only exact up to a known discretisation error."""
        want = np.atleast_1d(np.asarray(want, float))
        tol = rel_tol * np.abs(want) + abs_tol

        def stat(R_):
            s, s2, done = 0., 0., 0
            while done < R_:
                m = min(500_000, R_ - done)
                x = np.asarray(draw(self.key(), m), float).reshape(m, -1) - want
                s, s2, done = s + x.sum(0), s2 + (x ** 2).sum(0), done + m
            mu = s / done
            se = np.sqrt(np.maximum(s2 / done - mu ** 2, 0) / done) + 1e-12 * (1 + np.abs(want))
            return np.maximum(np.abs(mu) - tol, 0) / se, mu

        self.ev('mean_draws', R)
        z, mu = stat(R)
        if not (np.nanmax(z) < z1 and np.all(np.isfinite(z))):
            self.stage2 += 1
            self.ev('mean_draws', R * factor)
            z, mu = stat(R * factor)
            if not (np.nanmax(z) < z2 and np.all(np.isfinite(z))):
                i = int(np.nanargmax(np.where(np.isfinite(z), z, np.inf)))
                self.fail(f'{name}: expectation is off (z={z[i]:.3g})', kf=kf, component=i, got=float(want[i] + mu[i]),
                          want=float(want[i]), **data)
                return False
        return True

    # ---- end ---------------------------------------------------------------------------------------------------
    def finish(self, **need):
        """`need`: minimal numbers of events the monitors must have observed for an answer to count."""
        for k, v in need.items():
            if self.events[k] < v and not self.events['scripts_not_run']:  # (what could not be observed is in the evidence)
                print(f'[{self.pid}] inconclusive: monitor observed {self.events[k]} < {v} {k}')
                if not self.violations:
                    self._evidence()
                    sys.exit(2)
        for k, text in self.known_hit.items():
            print(f'KNOWN-FINDING: property={self.pid} {text}')
        self._evidence()
        if self.violations:
            d = os.path.join(VERIF, 'replays')
            os.makedirs(d, exist_ok=True)
            path = os.path.join(d, f'{self.pid}-{self.tier}-{self.seed}.json')
            with open(path, 'w') as f:
                json.dump({'property': self.pid, 'seed': self.seed, 'tier': self.tier,
                           'command': f'VERIF_SEED={self.seed} VERIF_TIER={self.tier} /verif/run {self.pid}',
                           'violations': self.violations}, f, indent=1)
            print(f'VIOLATION property={self.pid} replay={path}')
            sys.exit(10)
        print(f'[{self.pid}] held: {self.evaluations} executions, {len(self.distinct)} distinct, '
              f'{dict(self.events)}, {time.time() - self.t0:.1f}s')
        sys.exit(0)

    def _evidence(self):
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        ev = {'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': 'exploration',
              'coverage': {'evaluations': int(self.evaluations), 'distinct_nontrivial': len(self.distinct),
                           'rule': self.rule, 'samples': self.samples or [{'none': True}],
                           'executions_by_group': dict(self.groups),
                           'monitor_events': {k: int(v) for k, v in self.events.items()},
                           'second_stage_confirmations': self.stage2, **_plain(self.info)},
              'assumptions': self.assumptions, 'wall_s': round(time.time() - self.t0, 2),
              'violations': len(self.violations)}
        with open(os.path.join(VERIF, 'evidence', f'{self.pid}.json'), 'w') as f:
            json.dump(ev, f, indent=1)


def parts(section, n):
    """Split a long section into n, run side by side; the section reads `c.part = (i, n)`."""
    import functools
    out = []
    for i in range(n):
        @functools.wraps(section)
        def f(c, i=i):
            c.part = (i, n)
            section(c)
        f.__name__ = f'{section.__name__}#{i}'
        out.append(f)
    return out


def _serial(chk, sections):
    """Run the sections; an exception that comes out of the real code is a violation, one of the harness leaves the check
    without an answer (unless another section did find a violation)."""
    harness_error = False
    for s in sections:
        t = time.time()
        import zlib
        chk.rng = np.random.default_rng([SEED, int(chk.pid[1:]), 77 if THOROUGH else 7, zlib.crc32(s.__name__.encode())])
        try:
            s(chk)
        except Exception as e:
            tb = traceback.format_exc()
            if from_repo(e):
                chk.fail(f'{s.__name__}: the code raised {type(e).__name__}: {str(e)[:300]}', traceback=tb[-2500:])
            else:
                harness_error = True
                print(tb, flush=True)
        if os.environ.get('VERIF_TIMES'):
            print(f'  {s.__name__}: {time.time() - t:.1f}s', flush=True)
    return harness_error


STATE = ('evaluations', 'distinct', 'events', 'groups', 'samples', 'violations', 'known_hit', 'info', 'stage2')


def run_sections(chk, sections, **need):
    """Each section runs in a process of its own (VERIF_SECTION=a,b: only those, in this process; VERIF_JOBS: how many at once)."""
    import pickle
    import subprocess
    import tempfile
    child = os.environ.get('VERIF_CHILD')
    if child:
        bad = _serial(chk, [s for s in sections if s.__name__ == child])
        with open(os.environ['VERIF_CHILD_OUT'], 'wb') as f:
            pickle.dump({'bad': bad, **{k: _safe(getattr(chk, k)) for k in STATE}}, f)
        sys.stdout.flush()
        os._exit(0)
    only = os.environ.get('VERIF_SECTION')
    if only:
        bad, need = _serial(chk, [s for s in sections if s.__name__.split('#')[0] in only.split(',') or s.__name__ in only.split(',')]), {}
    else:
        bad = False
        jobs = int(os.environ.get('VERIF_JOBS', '6'))
        names = [s.__name__ for s in sections]
        assert len(set(names)) == len(names)
        with tempfile.TemporaryDirectory(prefix='verif-') as tmp:
            running, todo, results = {}, list(names), {}
            try:
                while todo or running:
                    while todo and len(running) < jobs:
                        n = todo.pop(0)
                        log = open(os.path.join(tmp, n + '.log'), 'w+')
                        running[n] = (subprocess.Popen([sys.executable, '-W', 'ignore', os.path.abspath(sys.argv[0])], stdout=log, stderr=subprocess.STDOUT,
                                                       env={**os.environ, 'VERIF_CHILD': n, 'VERIF_CHILD_OUT': os.path.join(tmp, n + '.out')}), log)
                    time.sleep(.05)
                    for n, (p, log) in list(running.items()):
                        if p.poll() is not None:
                            del running[n]
                            log.seek(0)
                            out = log.read()
                            log.close()
                            try:
                                with open(os.path.join(tmp, n + '.out'), 'rb') as f:
                                    results[n] = pickle.load(f)
                                print(out, end='', flush=True)
                            except Exception:
                                print(out[-4000:] + f'\n[{chk.pid}] section {n} ended with {p.returncode}', flush=True)
                                bad = True
            finally:
                for p, _ in running.values():
                    p.kill()
        for n in names:
            if n in results:
                r = results[n]
                bad |= r['bad']
                chk.evaluations += r['evaluations']
                chk.distinct |= r['distinct']
                chk.events += r['events']
                chk.groups += r['groups']
                chk.stage2 += r['stage2']
                chk.samples = (chk.samples + r['samples'])[:40]
                chk.violations += r['violations']
                chk.known_hit.update(r['known_hit'])
                chk.info.update(r['info'])
    if bad and not chk.violations:
        chk._evidence()
        sys.exit(2)
    chk.finish(**need)


def _safe(x):
    return x if isinstance(x, (set, Counter, int)) else _plain(x)


def vdraw(one, static=()):
    """Turn `one(key) -> scalar/vector` into `draw(key, R)`, compiled once per R."""
    import jax
    f = jax.jit(jax.vmap(one))
    return lambda key, R: f(jax.random.split(key, R))
