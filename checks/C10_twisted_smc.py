"""C10: the twisted SMC sampler: trace of one run (times, particles, weights), and the weighted law it converges to whatever
the proposal, the intermediate twisting functions and the resampling."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib.core import *
import jax
import jax.numpy as jnp
from lib.monitor import *
from fbs.samplers import twisted_smc
from fbs.samplers import resampling as rs

RES = {'stratified': rs.stratified, 'systematic': rs.systematic, 'multinomial': rs.multinomial, 'killing': rs.killing}
RES_T = {**RES, 'reverse': lambda w, key: jnp.arange(w.shape[0])[::-1]}


class Traced(Particles):
    """Adds the twisting callbacks; particles carry their provenance."""

    def _a(self, xs):
        return self._s(xs[..., 0], len(self.shape))

    def h_tr(self, xp, xs, xp_, t):
        return self.scale * (xp.sin(2.7 * self._a(xs) - 1.9 * self._a(xp_) + 1.7 * t) - .3 * (self._a(xs) - self._a(xp_)) ** 2)

    def h_tw(self, xp, y, xs, t):
        return self.scale * (xp.cos(1.7 * self._a(xs) + y.sum() - 2.1 * t) + .2 * self._a(xs) * y.sum())

    def h_pr(self, xp, xs, xp_, t, y):
        return self.scale * (xp.cos(.9 * self._a(xs) - 2.9 * self._a(xp_) + 1.1 * t + y.sum()) - .1 * self._a(xs) ** 2)

    def init(self, key, n):
        return self.init_sampler(key, jnp.zeros(()), n)

    def tr(self, xs, xprev, t, **kw):
        out = self.h_tr(jnp, xs, xprev, t)
        self.rec.emit('tr', xs=xs, xprev=xprev, t=t)
        return out

    def tw(self, y, xs, t, **kw):
        self.rec.emit('tw', y=y, xs=xs, t=t, kw=self.check_kw(kw))
        return self.h_tw(jnp, y, xs, t)

    def prop(self, key, xprev, t, y, **kw):
        x = xprev[..., 0] * .6 + jax.random.normal(key, xprev.shape[:-1], xprev.dtype)
        out = jnp.stack([x, xprev[..., 0]], -1)
        self.rec.emit('prop', key=key, xprev=xprev, t=t, y=y, out=out, kw=self.check_kw(kw))
        return out

    def pr(self, xs, xprev, t, y, **kw):
        self.rec.emit('pr', xs=xs, xprev=xprev, t=t, y=y, kw=self.check_kw(kw))
        return self.h_pr(jnp, xs, xprev, t, y)


def traces(c):
    jax.config.update('jax_enable_x64', True)
    cfgs = [dict(K=3, n=4, res='stratified'), dict(K=1, n=3, res='killing', vshape=(2,)), dict(K=5, n=6, shape=(2,), vshape=(3,), res='multinomial', kw={'e': 1.}),
            dict(K=4, n=5, shape=(2, 1), res='systematic', scale=15.), dict(K=4, n=7, res='reverse'), dict(K=2, n=1, res='stratified')]
    if c.thorough:
        cfgs += [dict(K=int(c.rng.integers(1, 9)), n=int(c.rng.integers(1, 20)), shape=[(), (2,)][c.rng.integers(2)], vshape=[(), (3,)][c.rng.integers(2)],
                      res=str(c.rng.choice(list(RES_T))), scale=float(c.rng.choice([.3, 1., 10.]))) for _ in range(40)]
    for cfg in cfgs:
        m = Traced(c.rng, cfg['K'], cfg.get('shape', ()), cfg.get('vshape', ()), cfg.get('kw'), scale=cfg.get('scale', 1.))
        n, K, y = cfg['n'], m.K, c.rng.normal(size=cfg.get('vshape', ()))
        for jit in (False, True):
            f = lambda key: twisted_smc(key, jnp.asarray(y), jnp.asarray(m.ts), m.init, m.tr, m.tw, m.prop, m.pr, m.wrap_resampling(RES_T[cfg['res']]), n,
                                        **(m.kw or {}))
            xs, lw = (jax.jit(f) if jit else f)(c.key())
            ev = m.rec.collect()
            one_trace(c, m, np.asarray(xs), np.asarray(lw), y, ev, n, dict(config=cfg, jit=jit))
            c.case('trace', {**cfg, 'jit': jit})
    jax.config.update('jax_enable_x64', False)


def one_trace(c, m, xs, lw, y, ev, n, d):
    K = m.K
    c.ev('callback_events', len(ev))
    val = lambda x: np.asarray(x).reshape(x.shape[0], -1, 2)[:, 0, 0]
    full = lambda x: np.asarray(x).reshape(x.shape[0], -1, 2)[:, 0]
    E = {nm: by_name(ev, nm) for nm in ('init', 'tr', 'tw', 'prop', 'pr', 'resample')}
    for nm in ('tr', 'tw', 'prop', 'pr'):
        ks = [m.time_index(e['t']) for e in E[nm]]
        want = list(range(K + 1)) if nm == 'tw' else list(range(1, K + 1))
        if not c.expect(sorted(set(ks)) == want, f'{nm}: times of evaluation', got=sorted(set(ks)), want=want, **d):
            return
        for e in E[nm]:
            if nm != 'tr':
                c.close(e['y'], y, f'{nm}: the observation', **d)
                c.expect(bool(e['kw']), f'{nm}: extra keyword arguments are forwarded', **d)
    if not c.expect(len(E['init']) == 1 and int(E['init'][0]['n']) == n, 'initial sampler: called once for n particles', **d):
        return
    cur = E['init'][0]['out']
    logp = m.h_tw(np, y, cur, m.ts[0])
    w = logp - lse(logp)
    left = E['resample']
    c.expect(len(left) == K, 'one resampling per step', got=len(left), **d)
    at = lambda nm, k: [e for e in E[nm] if m.time_index(e['t']) == k]
    for e in at('tw', 0):
        c.expect(members(val(e['xs']), val(cur)), 'twisting function at t_0: not of the initial particles', **d)
    for k in range(1, K + 1):
        hit = [e for e in left if e['w'].shape == w.shape and np.allclose(e['w'], np.exp(w), rtol=1e-8, atol=1e-12)]
        if not c.expect(len(hit) > 0, 'resampling weights are not the normalised twisted weights', k=k, want=np.exp(w), **d):
            return
        e = at('prop', k)[-1]
        good = [h for h in hit if same(val(cur)[h['idx']], val(e['xprev']))]
        if not c.expect(len(good) > 0, 'the particles to propagate are not the resampled ones', k=k, **d):
            return
        lp = logp[good[0]['idx']]
        prev, cur = e['xprev'], e['out']
        pairs = np.stack([val(cur), val(prev)], -1)
        for nm in ('tr', 'pr'):
            for g in at(nm, k):
                c.expect(members(np.stack([val(g['xs']), val(g['xprev'])], -1), pairs), f'{nm}: evaluated at other pairs of particles', k=k, **d)
        for g in at('tw', k):
            c.expect(members(val(g['xs']), val(cur)), 'twisting function: evaluated at other particles', k=k, **d)
        logp = m.h_tw(np, y, cur, m.ts[k])
        w = m.h_tr(np, cur, prev, m.ts[k]) + logp - m.h_pr(np, cur, prev, m.ts[k], y) - lp
        w = w - lse(w)
        c.ev('particles_traced', n)
    c.close(full(xs), full(cur), 'returned particles are the last generation', **d)
    c.close(lw, w, 'returned log weights', rtol=1e-8, atol=1e-8, **d)
    c.close(lse(lw), 0., 'returned weights are normalised', atol=1e-9, **d)
    keys_distinct(c, ev, 'twisted SMC', **d)


class FiniteTwist:
    def __init__(self, rng, K, S, shape=()):
        self.K, self.S = K, S
        D = lambda *sh: rng.dirichlet(np.ones(sh[-1]) * .7, size=sh[:-1]) * (1 - .05 * sh[-1]) + .05
        self.p0 = D(1, S)[0]
        self.tr, self.pr = D(K + 2, S, S), D(K + 2, S, S)  # row K + 1: illegitimate times; row 0: never used
        self.tw = np.exp(rng.normal(size=(K + 2, S)))
        self.ts = np.cumsum(rng.uniform(.5, 1.5, K + 1))

    def tix(self, t):
        d = jnp.abs(jnp.asarray(self.ts, jnp.float32) - t)
        return jnp.where(jnp.min(d) < 1e-4, jnp.argmin(d), self.K + 1)

    def run(self, key, n, res):
        f = lambda a: jnp.log(jnp.asarray(a, jnp.float32))
        ltr, lpr, ltw = f(self.tr), f(self.pr), f(self.tw)
        return twisted_smc(key, jnp.zeros(()), jnp.asarray(self.ts, jnp.float32),
                           lambda k, n_: jax.random.choice(k, self.S, (n_,), p=jnp.asarray(self.p0, jnp.float32)),
                           lambda x, xp, t: ltr[self.tix(t), xp, x], lambda y, x, t: ltw[self.tix(t), x],
                           lambda k, xp, t, y: jax.random.categorical(k, lpr[self.tix(t), xp], axis=-1),
                           lambda x, xp, t, y: lpr[self.tix(t), xp, x], res, n)

    def law(self):
        a = self.p0
        for k in range(1, self.K + 1):
            a = a @ self.tr[k]
        a = a * self.tw[self.K]
        return a / a.sum()


def law(c):
    n, reps = 20_000, 60 if not c.thorough else 400
    for K, S in [(1, 3), (3, 3), (4, 2)] + ([(6, 4), (2, 5), (5, 3)] if c.thorough else []):
        m = FiniteTwist(c.rng, K, S)
        for r in RES:
            def one(key):
                x, lw = m.run(key, n, RES[r])
                return jnp.zeros(S).at[x].add(jnp.exp(lw))

            c.case('weighted law', {'K': K, 'S': S, 'res': r}, n=reps)
            c.ev('weighted_laws')
            c.mean(f'twisted SMC: weighted law with {n} particles ({r})', vdraw(one), m.law(), R=reps, z1=4.5, abs_tol=4e-4, factor=4, K=K, S=S)


def small(c):
    """K = 1, n small: E over runs of the exact self-normalised estimator, by enumeration of nothing but the first generation:
    with constant twisting and the transition as proposal, the sampler is a plain simulation with uniform weights."""
    for n in (1, 3):
        m = FiniteTwist(c.rng, 3, 3)
        m.pr, m.tw = m.tr, np.ones_like(m.tw)
        a = m.p0
        for k in range(1, m.K + 1):
            a = a @ m.tr[k]
        for r in RES:
            def one(key):
                x, lw = m.run(key, n, RES[r])
                bad = jnp.abs(jnp.exp(lw) * n - 1).max() > 1e-4
                return jnp.where(bad, -1, x[jax.random.choice(jax.random.fold_in(key, 9), n, p=jnp.exp(lw))])
            c.case('plain simulation', {'n': n, 'res': r})
            c.ev('weighted_laws')
            c.law(f'twisted SMC without twisting (n={n}, {r})', vdraw(one), a, R=100_000)


run_sections(
    Check('C10', 'Recorded runs over (K, n, particle shape, observation shape, resampler, weight scale, jit); random finite models x resampler; '
          'non-trivial = distinct configuration', ['resampling schemes are unbiased (C01)', 'n = 20 000: bias below 4e-4']),
    [traces, law, small], callback_events=100, particles_traced=50, weighted_laws=10)
