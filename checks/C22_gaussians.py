"""C22: Gaussian divergences and matrix square root."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib.core import *
import scipy.linalg
import jax
jax.config.update('jax_enable_x64', True)
import jax.numpy as jnp
from fbs.utils import sqrtm, bures_dist, kl


def psd(rng, d, rank=None, scale=1.):
    A = rng.normal(size=(d, rank or d)) * scale
    return A @ A.T + (0 if rank else .05 * scale ** 2 * np.eye(d))


def roots(c):
    for i in range(40 if not c.thorough else 600):
        d = int(c.rng.integers(1, 9))
        rank = None if i % 3 else int(c.rng.integers(1, d + 1))
        S = psd(c.rng, d, rank, float(c.rng.choice([1e-3, 1., 30.])))
        if i % 10 == 9:
            S = np.ones((d, d)) if i % 20 == 9 else np.zeros((d, d))
            rank = 1
        for method in ('eigh', 'schur') if rank is None else ('eigh',):
            R = np.asarray(sqrtm(jnp.asarray(S), method=method))
            sc = np.abs(S).max() + 1e-30
            d_ = dict(d=d, rank=rank, method=method, S=S)
            c.case('sqrtm', d_)
            c.expect(np.isfinite(R).all(), 'square root is finite', **d_)
            c.close(R @ R, S, 'the square of the root', rtol=1e-6, atol=1e-7 * sc, **d_)
            c.close(R, R.T, 'the root is symmetric', rtol=1e-6, atol=1e-6 * np.sqrt(sc), **d_)
            c.expect(np.linalg.eigvalsh((R + R.T) / 2).min() > -1e-6 * np.sqrt(sc), 'the root is positive semi-definite', **d_)
        R = np.asarray(sqrtm(jnp.asarray(S)))
        c.close(R, np.asarray(jax.vmap(sqrtm)(jnp.asarray(S)[None]))[0], 'vmap', rtol=1e-7, atol=1e-9 * (1 + sc))
        R32 = np.asarray(sqrtm(jnp.asarray(S, jnp.float32)))
        # jaxlib's own float32 eigh sometimes answers NaN after calls of its schur: that is not the library's
        if not all(np.isfinite(np.asarray(z)).all() for z in jnp.linalg.eigh(jnp.asarray(S, jnp.float32))):
            c.ev('lapack_glitches')
            continue
        c.ev('float32_roots')
        c.expect(np.isfinite(R32).all(), 'float32 square root is finite', d=d, rank=rank, S=S)
        c.close(R32 @ R32, S, 'float32 square root', rtol=1e-3, atol=1e-4 * sc, d=d, rank=rank)


def kl_divergence(c):
    for i in range(40 if not c.thorough else 600):
        d = int(c.rng.integers(1, 6))
        m0, m1 = c.rng.normal(size=(2, d)) * 2
        S0, S1 = psd(c.rng, d), psd(c.rng, d)
        got = float(kl(*map(jnp.asarray, (m0, S0, m1, S1))))
        want = .5 * (np.trace(np.linalg.solve(S1, S0)) - d + (m1 - m0) @ np.linalg.solve(S1, m1 - m0) + np.linalg.slogdet(S1)[1] - np.linalg.slogdet(S0)[1])
        info = dict(d=d, m0=m0, m1=m1, S0=S0, S1=S1)
        c.case('kl', info)
        c.close(got, want, 'KL divergence', rtol=1e-8, atol=1e-9, **info)
        c.expect(got > 0, 'KL divergence is positive', got=got, **info)
        c.close(float(kl(*map(jnp.asarray, (m0, S0, m0, S0)))), 0., 'KL divergence of a law to itself', atol=1e-9, **info)
        # invariance by affine maps
        A = c.rng.normal(size=(d, d)) + 2 * np.eye(d)
        if abs(np.linalg.det(A)) > .05:
            c.close(float(kl(*map(jnp.asarray, (A @ m0, A @ S0 @ A.T, A @ m1, A @ S1 @ A.T)))), got, 'invariance by affine maps', rtol=1e-5, atol=1e-7, **info)
    # many dimensions at a small or a large scale: the determinants are out of range, their logarithms are not
    for d, scale in ((300, 1e-4), (300, 1e3), (120, 1e-6), (40, 1e-15)):
        r0, r1 = c.rng.uniform(.5, 2, (2, d))
        m0, m1 = c.rng.normal(size=(2, d)) * np.sqrt(scale)
        got = float(kl(jnp.asarray(m0), jnp.diag(jnp.asarray(r0 * scale)), jnp.asarray(m1), jnp.diag(jnp.asarray(r1 * scale))))
        c.case('kl', {'d': d, 'scale': scale})
        c.close(got, .5 * np.sum(r0 / r1 - 1 + (m1 - m0) ** 2 / (r1 * scale) + np.log(r1 / r0)), 'KL divergence in many dimensions', rtol=1e-8, d=d, scale=scale)
    for d in (1, 2):
        # definition: E_0[log p0 - log p1], by sampling
        m0, m1, S0, S1 = c.rng.normal(size=d), c.rng.normal(size=d), psd(c.rng, d), psd(c.rng, d) + .5 * np.eye(d)
        L = np.linalg.cholesky(S0)
        want = float(kl(*map(jnp.asarray, (m0, S0, m1, S1))))

        def one(key):
            x = m0 + L @ jax.random.normal(key, (d,))
            f = jax.scipy.stats.multivariate_normal.logpdf
            return f(x, m0, S0) - f(x, m1, S1)
        c.case('kl by definition', {'d': d})
        c.ev('definitions')
        c.mean('KL divergence is the expected log ratio', vdraw(one), [want], R=200_000)


def bures(c):
    for i in range(30 if not c.thorough else 400):
        d = int(c.rng.integers(1, 6))
        m0, m1 = c.rng.normal(size=(2, d)) * 2
        S0, S1 = psd(c.rng, d, None if i % 4 else 1), psd(c.rng, d)
        B = lambda *a: float(bures_dist(*map(jnp.asarray, a)))
        got = B(m0, S0, m1, S1)
        r = np.real(scipy.linalg.sqrtm(S1))
        want = ((m0 - m1) ** 2).sum() + np.trace(S0 + S1) - 2 * np.sqrt(np.maximum(np.linalg.eigvalsh(r @ S0 @ r), 0)).sum()
        info = dict(d=d, m0=m0, m1=m1, S0=S0, S1=S1)
        sc = np.abs(S0).max() + np.abs(S1).max()
        c.case('bures', info)
        c.close(got, want, 'Gaussian Wasserstein distance (squared)', rtol=1e-5, atol=1e-6 * sc, **info)
        c.close(B(m1, S1, m0, S0), got, 'symmetry', rtol=1e-5, atol=1e-6 * sc, **info)
        c.close(B(m0, S0, m0, S0), 0., 'distance of a law to itself', atol=1e-6 * sc, **info)
        c.expect(got > -1e-7 * sc, 'positivity', got=got, **info)
        c.close(B(m0, S0, m1, S0), ((m0 - m1) ** 2).sum(), 'translation', rtol=1e-6, atol=1e-6 * sc, **info)
        Q = np.linalg.qr(c.rng.normal(size=(d, d)))[0]
        c.close(B(Q @ m0, Q @ S0 @ Q.T, Q @ m1, Q @ S1 @ Q.T), got, 'invariance by rotation', rtol=1e-5, atol=1e-6 * sc, **info)
        # commuting case
        a, b = c.rng.uniform(.1, 3, (2, d))
        c.close(B(m0, Q @ np.diag(a) @ Q.T, m0, Q @ np.diag(b) @ Q.T), ((np.sqrt(a) - np.sqrt(b)) ** 2).sum(), 'commuting covariances', rtol=1e-6, atol=1e-7, **info)
        m2, S2 = c.rng.normal(size=d), psd(c.rng, d)
        s = lambda x: np.sqrt(max(x, 0))
        c.expect(s(got) <= s(B(m0, S0, m2, S2)) + s(B(m2, S2, m1, S1)) + 1e-4 * np.sqrt(sc), 'triangle inequality', **info)
        c.ev('definitions')


run_sections(
    Check('C22', 'Random Gaussians (dimension 1 to 8, ill-conditioned, rank-deficient) x method x precision; oracle: scipy, definitions, metric axioms and '
          'invariances; non-trivial = distinct problem', ['kl: positive definite covariances', 'bures_dist is the squared distance']),
    [roots, kl_divergence, bures], definitions=20, float32_roots=20)
