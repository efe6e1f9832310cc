"""C13: Doob's bridge of the linear SDEs: drift, endpoints, and law of the simulated bridge."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib.core import *
import jax
jax.config.update('jax_enable_x64', True)
import jax.numpy as jnp
from fbs.sdes import make_linear_sde, StationaryConstLinearSDE, StationaryLinLinearSDE
from fbs.sdes.simulators import doob_bridge_simulator
from fbs.samplers.gibbs import bridge_sampler


def sdes(rng, n):
    for i in range(n):
        U = lambda a, b: float(rng.uniform(a, b))
        t0 = [0., U(-.5, 1)][i % 2]
        T = t0 + U(.5, 2.5)
        b0 = U(.05, 1.)
        yield StationaryConstLinearSDE(a=-U(.1, 1.5), b=U(.3, 2)), t0, T
        yield StationaryLinLinearSDE(beta_min=b0, beta_max=b0 + U(.1, 5), t0=t0, T=T), t0, T


def exact_fq(sde, t, s):
    """independent of the methods under test other than drift and dispersion: Gauss-Legendre of the linear ODE"""
    g, w = np.polynomial.legendre.leggauss(20)
    A = lambda u, r: float(sum(wi * (u - r) / 2 * sde.drift(jnp.asarray(1.), r + (gi + 1) * (u - r) / 2) for gi, wi in zip(g, w)))
    F = np.exp(A(t, s))
    Q = float(sum(wi * (t - s) / 2 * (np.exp(A(t, r := s + (gi + 1) * (t - s) / 2)) * float(sde.dispersion(r))) ** 2 for gi, wi in zip(g, w)))
    return F, Q


def drift(c):
    for sde, t0, T in sdes(c.rng, 3 if not c.thorough else 25):
        for shape in ((), (3,), (2, 2)):
            x, y = c.rng.normal(size=(2, *shape)) * 2
            t = float(c.rng.uniform(t0, T - .02))
            F, Q = exact_fq(sde, T, t)
            want = float(sde.drift(jnp.asarray(1.), t)) * x + float(sde.dispersion(t)) ** 2 * F * (y - F * x) / Q
            d = dict(sde=type(sde).__name__, params=sde.__dict__, t=t, shape=shape)
            c.case('drift', d)
            c.ev('drift_comparisons')
            c.close(sde.bridge_drift(jnp.asarray(x), t, jnp.asarray(y), T), want, 'bridge drift', rtol=1e-6, atol=1e-8, **d)
            # another terminal time than the T of the SDE
            if shape == ():
                T2 = (t + T) / 2
                F, Q = exact_fq(sde, T2, t)
                want = float(sde.drift(jnp.asarray(1.), t)) * x + float(sde.dispersion(t)) ** 2 * F * (y - F * x) / Q
                c.close(sde.bridge_drift(jnp.asarray(x), t, jnp.asarray(y), T2), want, 'bridge drift to an earlier terminal time', rtol=1e-6, atol=1e-8, **d)


def endpoints(c):
    for q, (sde, t0, T) in enumerate(sdes(c.rng, 2 if not c.thorough else 15)):
        shape = [(), (2,), (2, 3)][q % 3]
        x0, xT = jnp.asarray(c.rng.normal(size=(2, *shape)))
        ts = np.concatenate([[t0], np.sort(c.rng.uniform(t0, T, 4)), [T]])
        d = dict(sde=type(sde).__name__, params=sde.__dict__, ts=ts)
        c.case('endpoints', d)
        for rep in (True, False):
            p = doob_bridge_simulator(c.key(), sde, x0, xT, jnp.asarray(ts), integration_nsteps=50, replace=rep)
            c.expect(p.shape == (len(ts), *shape), 'shape of the bridge', got=p.shape, **d)
            c.close(p[0], x0, 'the bridge starts at x0', **d)
            c.expect(np.isfinite(np.asarray(p)).all(), 'the bridge is finite', **d)
            if rep:
                c.close(p[-1], xT, 'the bridge ends at xT when replaced', rtol=0, atol=0, **d)
        k = c.key()
        a, b = [doob_bridge_simulator(k, sde, x0, xT, jnp.asarray(ts), integration_nsteps=50, replace=r) for r in (True, False)]
        c.close(a[:-1], b[:-1], 'replacing the end must not touch the rest', **d)
        p = bridge_sampler(c.key(), x0, xT, jnp.asarray(ts), sde)
        c.close(p[0], x0, 'Gibbs bridge sampler starts at y0', **d)
        c.close(p[-1], xT, 'Gibbs bridge sampler ends at yT', **d)


def law(c):
    """Moments of the simulated bridge: against the exact Euler recursion, and (loosely) the continuous-time bridge."""
    for q, (sde, t0, T) in enumerate(sdes(c.rng, 1 if not c.thorough else 6)):
        x0, xT, m = float(c.rng.normal()), float(c.rng.normal() * 1.5), 40
        ts = np.linspace(t0, T, 5) if q % 2 else np.array([t0, t0 + .1 * (T - t0), t0 + .55 * (T - t0), t0 + .7 * (T - t0), T])
        for fn, m in ((lambda k: doob_bridge_simulator(k, sde, jnp.asarray(x0), jnp.asarray(xT), jnp.asarray(ts), integration_nsteps=40), 40),
                      (lambda k: bridge_sampler(k, jnp.asarray(x0), jnp.asarray(xT), jnp.asarray(ts), sde), None)):
            K = len(ts) - 1
            # continuous-time bridge
            F = [exact_fq(sde, t, t0) for t in ts[1:-1]]
            mean, cov = [], np.zeros((K - 1, K - 1))
            FT = [exact_fq(sde, T, t) for t in ts[1:-1]]
            F0T, Q0T = exact_fq(sde, T, t0)
            # prior joint of (x_t1.., x_T) given x0
            n = K
            P = np.zeros((n, n))
            mu = np.array([f[0] * x0 for f in F] + [F0T * x0])
            qs = [f[1] for f in F] + [Q0T]
            tt = ts[1:]
            for i in range(n):
                for j in range(i, n):
                    P[i, j] = P[j, i] = qs[i] * (exact_fq(sde, tt[j], tt[i])[0] if j > i else 1.)
            G = P[:-1, -1] / P[-1, -1]
            want_m, want_C = mu[:-1] + G * (xT - mu[-1]), P[:-1, :-1] - np.outer(G, P[-1, :-1])

            def one(key):
                z = (fn(key)[1:-1] - want_m) / np.sqrt(np.diag(want_C))
                return jnp.concatenate([z, jnp.outer(z, z).ravel()])
            D = np.sqrt(np.diag(want_C))
            c.case('law', {'sde': type(sde).__name__, 'params': sde.__dict__, 'ts': ts, 'gibbs': m is None})
            c.ev('bridge_laws')
            c.mean('law of the bridge at the grid times', vdraw(one), np.concatenate([np.zeros(K - 1), (want_C / np.outer(D, D)).ravel()]), R=20_000,
                   abs_tol=.06 if m else .04, sde=type(sde).__name__, params=sde.__dict__)


run_sections(
    Check('C13', 'Random SDEs x endpoints x state shapes x time grids; oracle: transition density by quadrature of the drift and dispersion of the same '
          'object, Gaussian conditioning; non-trivial = distinct SDE parameters', ['Euler bias of at most .06 standard deviations at 40 substeps']),
    [drift, endpoints, law], drift_comparisons=10, bridge_laws=4)
