"""C16: the iterative proportional fitting losses, recomputed from what the drifts were fed."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib.core import *
import jax
jax.config.update('jax_enable_x64', True)
import jax.numpy as jnp
from lib.monitor import Recorder, by_name
from fbs.dsb.base import ipf_loss_cont, ipf_loss_cont_v, ipf_loss_disc

F = lambda xp, x, t, p: xp.sin(p[0] * x + t) - p[1] * x
B = lambda xp, x, t, p: xp.cos(p[0] * x - 2 * t) + p[1] * x * t
G = lambda xp, t: .4 + .3 * t ** 2


def setups(c, n):
    for i in range(n):
        shape = [(3,), (1,), (2, 2)][i % 3]
        ts = np.cumsum(c.rng.uniform(.05, .6, int(c.rng.integers(2, 8)))) + c.rng.normal() * .3
        ts = ts[::-1].copy() if i % 2 else ts
        yield c.rng.normal(size=(int(c.rng.integers(2, 6)), *shape)), ts, c.rng.normal(size=2), c.rng.normal(size=2)


def states(c, rec, x0s, ts, p, q, d, what, index=None):
    """the simulated trajectory as seen by the parametric drift: {time: state}"""
    ev = rec.collect()
    c.ev('drift_evaluations', len(ev))
    out = {}
    for e in by_name(ev, 'B'):
        c.close(e['p'], p, f'{what}: parameter of the parametric drift', **d)
        k = int(np.abs(ts - float(e['t'])).argmin())
        ok = c.expect(abs(ts[k] - float(e['t'])) < 1e-9 and k >= 1, f'{what}: the parametric drift is evaluated at t_1 ... t_n', t=float(e['t']), **d)
        ok &= c.expect(e['x'].shape == x0s.shape, f'{what}: batch of the parametric drift', got=e['x'].shape, **d)
        if ok:
            out[k] = e['x']
    for e in by_name(ev, 'F'):
        c.close(e['p'], q, f'{what}: parameter of the simulator drift', **d)
    if not c.expect(sorted(out) == list(range(1, len(ts))), f'{what}: every step is trained on once', got=sorted(out), **d):
        return None
    return [x0s] + [out[k] for k in range(1, len(ts))]


def continuous(c):
    pool = []
    for j, (x0s, ts, p, q) in enumerate(setups(c, 10 if not c.thorough else 120)):
        rec = Recorder()

        def fs(x, t, par):
            rec.emit('F', x=x, t=t, p=par)
            return F(jnp, x, t, par)

        def bs(x, t, par):
            rec.emit('B', x=x, t=t, p=par)
            return B(jnp, x, t, par)
        key = c.key()
        vals = []
        d = dict(shape=x0s.shape, ts=ts)
        for nm, loss in (('ipf_loss_cont', ipf_loss_cont), ('ipf_loss_cont_v', ipf_loss_cont_v)):
            f = lambda k: loss(k, jnp.asarray(p), jnp.asarray(q), jnp.asarray(x0s), jnp.asarray(ts), bs, fs, lambda t: G(jnp, t))
            vals.append(float((jax.jit(f) if j % 2 else f)(key)))
            c.case('continuous', {**d, 'loss': nm})
            xs = states(c, rec, x0s, ts, p, q, d, nm)
            if xs is None:
                continue
            err = []
            for k in range(len(ts) - 1):
                dt, x, y = abs(ts[k + 1] - ts[k]), xs[k], xs[k + 1]
                fn = lambda z: z + F(np, z, ts[k], q) * dt
                pool.append(((y - fn(x)) / (np.sqrt(dt) * G(np, ts[k]))).ravel())
                err.append(np.mean((B(np, y, ts[k + 1], p) * dt - (fn(x) - fn(y))) ** 2))
            c.close(vals[-1], np.mean(err), f'{nm}: value of the loss', rtol=1e-8, atol=1e-12, **d)
        c.close(vals[0], vals[1], 'the two implementations of the loss must be identical', rtol=1e-8, atol=1e-12, **d)
        g = [np.asarray(jax.grad(lambda par: l(key, par, jnp.asarray(q), jnp.asarray(x0s), jnp.asarray(ts), lambda x, t, r: B(jnp, x, t, r),
                                               lambda x, t, r: F(jnp, x, t, r), lambda t: G(jnp, t)))(jnp.asarray(p))) for l in (ipf_loss_cont, ipf_loss_cont_v)]
        c.close(g[0], g[1], 'gradients of the two implementations', rtol=1e-6, atol=1e-10, **d)
    noise(c, 'continuous', pool)


def noise(c, what, pool):
    z = np.concatenate(pool)
    c.ev('innovations', z.size)
    u = np.unique(z.round(9))
    p = scipy.stats.kstest(u, 'norm').pvalue
    c.expect(p > 1e-10, f'{what}: simulated noise is not standard normal', p=p, n=z.size)
    c.expect(len(u) > .45 * z.size, f'{what}: noises are shared', distinct=len(u), n=z.size)


def discrete(c):
    pool = []
    for j, (x0s, ts, p, q) in enumerate(setups(c, 9 if not c.thorough else 90)):
        x0s = x0s.reshape(x0s.shape[0], -1)
        ks, gam = ts, c.rng.uniform(.05, 1., len(ts) - 1)
        rec = Recorder()

        def fs(x, t, par):
            rec.emit('F', x=x, t=t, p=par)
            return F(jnp, x, t, par)

        def bs(x, t, par):
            rec.emit('B', x=x, t=t, p=par)
            return B(jnp, x, t, par)
        f = lambda k: ipf_loss_disc(jnp.asarray(p), jnp.asarray(q), jnp.asarray(x0s), jnp.asarray(ks), jnp.asarray(gam), bs, fs, k)
        val = float((jax.jit(f) if j % 2 else f)(c.key()))
        d = dict(shape=x0s.shape, ks=ks, gammas=gam)
        c.case('discrete', d)
        xs = states(c, rec, x0s, ks, p, q, d, 'ipf_loss_disc')
        if xs is None:
            continue
        err = 0.
        for k in range(len(ks) - 1):
            x, y = xs[k], xs[k + 1]
            fx, fy = F(np, x, ks[k], q), F(np, y, ks[k], q)
            pool.append(((y - fx) / np.sqrt(gam[k])).ravel())
            err += np.mean((B(np, y, ks[k + 1], p) - (y + fx - fy)) ** 2)
        c.close(val, err, 'ipf_loss_disc: value of the loss', rtol=1e-8, atol=1e-12, **d)
    noise(c, 'discrete', pool)


def fixed_point(c):
    """Gaussian problem: the minimiser of the loss over affine drifts is the time reversal of the simulated chain."""
    for rev in (False, True):
        ts = np.linspace(0., .4, 9)
        ts = ts[::-1].copy() if rev else ts
        a, s, m0, v0 = -.9, .8, .7, 1.4
        x0s = jnp.asarray(m0 + np.sqrt(v0) * c.rng.normal(size=(200_000, 1)))
        K = len(ts) - 1
        # per-step affine drift b(x, t_k) = w_k x + c_k, least squares by one Newton step on a quadratic loss
        tj = jnp.asarray(ts)
        par = lambda x, t, w: (w[:K][jnp.argmin(jnp.abs(tj - t)) - 1] * x + w[K:][jnp.argmin(jnp.abs(tj - t)) - 1])
        key = c.key()
        for loss in (ipf_loss_cont, ipf_loss_cont_v):
            L = lambda w: loss(key, w, None, x0s, tj, par, lambda x, t, p: a * x, lambda t: s)
            g = jax.jacrev(L)
            w0 = jnp.zeros(2 * K)
            H = jax.vmap(lambda e: (g(w0 + e) - g(w0)))(jnp.eye(2 * K))
            w = np.asarray(-jnp.linalg.solve(H, g(w0)))
            m, v = m0, v0
            for k in range(K):
                dt = abs(ts[k + 1] - ts[k])
                f = 1 + a * dt
                m1, v1 = f * m, f ** 2 * v + s ** 2 * dt
                # E[x_k | x_{k+1}] = m + v f / v1 (x - m1); the regression target is f (x_k - x_{k+1})
                want = np.array([f * (v * f / v1 - 1) / dt, f * (m - v * f / v1 * m1) / dt])
                c.close(np.array([w[k], w[K + k]]), want, 'the minimiser is not the time reversal', rtol=.02, atol=.15, k=k)
                m, v = m1, v1
            c.case('fixed point', {'rev': rev, 'loss': loss.__name__})


run_sections(
    Check('C16', 'Random drifts x times (forward and reversed) x batch and state shapes; oracle: loss recomputed from the recorded states, equality of the '
          'two implementations, Gaussian time reversal; non-trivial = distinct (batch, times)', []),
    [continuous, discrete, fixed_point], drift_evaluations=100, innovations=300)
