"""C15: the closed-form Gaussian Schroedinger bridge: endpoints, marginals, continuity (Fokker-Planck) and optimality (HJB)."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib.core import *
import jax
jax.config.update('jax_enable_x64', True)
import jax.numpy as jnp
from fbs.sdes import make_gaussian_bw_sb, euler_maruyama


def problems(c, n):
    for i in range(n):
        d = int(c.rng.integers(1, 5))
        A, B = c.rng.normal(size=(2, d, d))
        c0, c1 = A @ A.T + .1 * np.eye(d), B @ B.T + .1 * np.eye(d)
        if i % 4 == 3:
            c0 = np.diag(c.rng.uniform(.2, 2, d))
        yield c.rng.normal(size=d), c0, c.rng.normal(size=d), c1, [1., .5, 2., float(c.rng.uniform(.2, 2.5))][i % 4]


def identities(c):
    for m0, c0, m1, c1, sig in problems(c, 24 if not c.thorough else 300):
        d = len(m0)
        mean, cov, drift = make_gaussian_bw_sb(*map(jnp.asarray, (m0, c0, m1, c1)), sig=sig)
        info = dict(d=d, sig=sig, m0=m0, c0=c0, m1=m1, c1=c1)
        c.case('bridge', info)
        sc = 1 + np.abs(c0).max() + np.abs(c1).max()
        for t, m, C in ((0., m0, c0), (1., m1, c1)):
            c.close(mean(t), m, f'mean at t = {t}', rtol=1e-9, atol=1e-9, **info)
            c.close(cov(t), C, f'covariance at t = {t}', rtol=1e-8, atol=1e-8 * sc, **info)
        for t in c.rng.uniform(.02, .98, 4):
            t = float(t)
            m, C = np.asarray(mean(t)), np.asarray(cov(t))
            c.close(C, C.T, 'marginal covariance is symmetric', atol=1e-8 * sc, **info)
            c.expect(np.linalg.eigvalsh((C + C.T) / 2).min() > 0, 'marginal covariance is positive definite', t=t, **info)
            x = m + c.rng.normal(size=d)
            J = np.asarray(jax.jacfwd(drift)(jnp.asarray(x), t))
            c.close(J, jax.jacfwd(drift)(jnp.asarray(x * 2 - 1), t), 'the drift is affine', rtol=1e-7, atol=1e-8, **info)
            dm, dC = jax.jacfwd(mean)(t), jax.jacfwd(cov)(t)
            c.close(drift(jnp.asarray(m), t), dm, 'mean flow: d mean / dt = drift(mean)', rtol=1e-7, atol=1e-8 * sc, t=t, **info)
            c.close(J @ C + C @ J.T + sig ** 2 * np.eye(d), dC, 'covariance flow (Fokker-Planck)', rtol=1e-6, atol=1e-7 * sc, t=t, **info)
            # optimality: a gradient drift that solves the HJB equation is the Schroedinger bridge between its marginals
            c.close(J, J.T, 'the drift is a gradient field', rtol=1e-6, atol=1e-7 * (1 + np.abs(J).max()), t=t, **info)
            db = np.asarray(jax.jacfwd(lambda r: drift(jnp.asarray(x), r))(t))
            b = np.asarray(drift(jnp.asarray(x), t))
            c.close(db + J @ b, np.zeros(d), 'HJB equation of the bridge drift', atol=1e-6 * (1 + np.abs(J).max() ** 2 * (1 + np.abs(x).max()) + np.abs(b).max() * (1 + np.abs(J).max())), t=t, **info)
            c.ev('pde_residuals', 3)


def default_sig(c):
    m0, c0, m1, c1, _ = next(problems(c, 1))
    a, b = make_gaussian_bw_sb(*map(jnp.asarray, (m0, c0, m1, c1))), make_gaussian_bw_sb(*map(jnp.asarray, (m0, c0, m1, c1)), sig=1.)
    for t in (.2, .7):
        c.close(a[1](t), b[1](t), 'default sig is 1')
        c.close(a[2](jnp.asarray(m1), t), b[2](jnp.asarray(m1), t), 'default sig is 1')
    c.case('default', {'m0': m0})


def reversal(c):
    """Exchanging the two endpoints reverses the marginals in time."""
    for m0, c0, m1, c1, sig in problems(c, 6 if not c.thorough else 60):
        f, g = make_gaussian_bw_sb(*map(jnp.asarray, (m0, c0, m1, c1)), sig=sig), make_gaussian_bw_sb(*map(jnp.asarray, (m1, c1, m0, c0)), sig=sig)
        sc = 1 + np.abs(c0).max() + np.abs(c1).max()
        for t in (.1, .5, .8):
            c.close(f[0](t), g[0](1 - t), 'time reversal of the mean', rtol=1e-8, atol=1e-9 * sc)
            c.close(f[1](t), g[1](1 - t), 'time reversal of the covariance', rtol=1e-6, atol=1e-7 * sc)
        c.case('reversal', {'m0': m0, 'sig': sig})


def simulation(c):
    for m0, c0, m1, c1, sig in problems(c, 3 if not c.thorough else 12):
        d = len(m0)
        mean, cov, drift = make_gaussian_bw_sb(*map(jnp.asarray, (m0, c0, m1, c1)), sig=sig)
        L = np.linalg.cholesky(c0)
        ts = jnp.linspace(0., 1., 301)
        W = np.linalg.inv(np.linalg.cholesky(c1 + .05 * np.eye(d)))

        def one(key):
            k1, k2 = jax.random.split(key)
            x = euler_maruyama(k2, m0 + L @ jax.random.normal(k1, (d,)), ts, drift, lambda t: sig)
            z = W @ (x - m1)
            return jnp.concatenate([z, jnp.outer(z, z).ravel()])
        c.case('simulation', {'sig': sig, 'd': d})
        c.ev('path_laws')
        c.mean('simulated bridge hits the terminal Gaussian', vdraw(one), np.concatenate([np.zeros(d), (W @ c1 @ W.T).ravel()]), R=10_000, abs_tol=.06, sig=sig)


run_sections(
    Check('C15', 'Random means, covariances, dimensions and diffusion coefficients; oracle: boundary values, Fokker-Planck and HJB residuals by automatic '
          'differentiation of the returned functions; non-trivial = distinct problem', ['positive definite covariances', 'float64']),
    [identities, default_sig, reversal, simulation], pde_residuals=100, path_laws=3)
