"""C23: the Crescent model: sampler, densities, score and posterior describe one and the same joint law."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib.core import *
import jax
jax.config.update('jax_enable_x64', True)
import jax.numpy as jnp
from fbs.data import Crescent


def models(c, n):
    yield Crescent()
    for _ in range(n):
        yield Crescent(psi=float(c.rng.uniform(.4, 2) * c.rng.choice([-1, 1])), xi=float(c.rng.uniform(.2, 3)))


def grid(lo, hi, n):
    return np.linspace(lo, hi, n)


def densities(c):
    for m in models(c, 3 if not c.thorough else 25):
        x, y = grid(-9, 9, 401), grid(-7, 7, 301)
        P = np.exp(jax.vmap(jax.vmap(m.log_prior_pdf))(jnp.stack(jnp.meshgrid(x, y), -1)))
        d = dict(psi=m.psi, xi=m.xi)
        c.case('densities', d)
        c.close(np.trapz(np.trapz(P, x, axis=1), y), 1., 'the prior density integrates to one', rtol=1e-4, **d)
        for _ in range(3):
            phi = c.rng.normal(size=2) * 1.5
            mu = float(m.emission(jnp.asarray(phi), m.psi))
            ys = grid(mu - 20, mu + 20, 2001)
            L = np.exp(jax.vmap(m.log_cond_pdf_likelihood, in_axes=[0, None])(jnp.asarray(ys), jnp.asarray(phi)))
            c.close(np.trapz(L, ys), 1., 'the likelihood integrates to one over the observation', rtol=1e-5, **d)
            c.close(mu, phi[1] / m.psi + .5 * (phi[0] ** 2 + m.psi ** 2), 'emission', rtol=1e-9, **d)
        c.ev('integrals', 4)


def sampling(c):
    """The law of the sampler against the densities: moments computed by quadrature of the densities."""
    for m in models(c, 2 if not c.thorough else 12):
        x, y = grid(-9, 9, 361), grid(-7, 7, 281)
        mesh = jnp.stack(jnp.meshgrid(x, y), -1)
        P = np.exp(jax.vmap(jax.vmap(m.log_prior_pdf))(mesh))
        mu = np.asarray(jax.vmap(jax.vmap(lambda p: m.emission(p, m.psi)))(mesh))
        I = lambda f: np.trapz(np.trapz(P * f, x, axis=1), y)
        X, Y = np.asarray(mesh[..., 0]), np.asarray(mesh[..., 1])
        # conditional moments of the observation by quadrature of the likelihood at one state
        e = grid(-25, 25, 4001)
        mu0 = float(m.emission(jnp.zeros(2), m.psi))
        L = np.exp(jax.vmap(m.log_cond_pdf_likelihood, in_axes=[0, None])(jnp.asarray(mu0 + e), jnp.zeros(2)))
        v = np.trapz(L * e ** 2, e)
        want = [I(X), I(Y), I(X ** 2), I(X * Y), I(Y ** 2), I(np.cos(X)), I(np.cos(Y)), I(np.cos(X + Y)), I(mu), I(mu ** 2) + v, I(mu * X), I(mu * Y), I(mu * X ** 2),
                np.exp(-v / 2) * I(np.cos(mu))]

        def one(key):
            xs, ys = m.sampler(key, 1)
            a, b, z = xs[0, 0], xs[0, 1], ys[0]
            return jnp.stack([a, b, a ** 2, a * b, b ** 2, jnp.cos(a), jnp.cos(b), jnp.cos(a + b), z, z ** 2, z * a, z * b, z * a ** 2, jnp.cos(z)])
        d = dict(psi=m.psi, xi=m.xi)
        c.case('sampling', d)
        c.ev('sampling_laws')
        c.mean('moments of the sampler against the densities', vdraw(one), want, R=200_000, abs_tol=1e-4, z1=4., **d)
        xs, ys = m.sampler(c.key(), 50)
        c.expect(xs.shape == (50, 2) and ys.shape == (50,) and len(np.unique(np.asarray(xs))) == 100 and len(np.unique(np.asarray(ys))) == 50, 'independent samples in a batch', **d)
        # joint independence within the batch: rows and noises
        def two(key):
            xs, ys = m.sampler(key, 2)
            r = ys - jax.vmap(m.emission, in_axes=[0, None])(xs, m.psi)
            return jnp.stack([xs[0, 0] * xs[1, 0], xs[0, 1] * xs[1, 1], r[0] * r[1], r[0] * xs[0, 0], r[0] * xs[0, 1], r[0] ** 2, r[1] ** 2, r[0] * xs[1, 0]])
        c.mean('independence within the batch', vdraw(two), [0, 0, 0, 0, 0, v, v, 0], R=100_000, abs_tol=1e-4, z1=4., **d)


def scores(c):
    for m in models(c, 3 if not c.thorough else 25):
        for _ in range(5):
            xy = c.rng.normal(size=3) * 1.5
            lp = lambda z: float(m.log_prior_pdf(jnp.asarray(z[:2])) + m.log_cond_pdf_likelihood(z[2], jnp.asarray(z[:2])))
            h = 1e-5
            num = np.array([(lp(xy + h * e) - lp(xy - h * e)) / (2 * h) for e in np.eye(3)])
            c.close(m.score(jnp.asarray(xy)), num, 'score is the gradient of the joint log density', rtol=1e-5, atol=1e-6, psi=m.psi, xi=m.xi, xy=xy)
            a, b = m.unpack(jnp.asarray(xy))
            c.expect(np.array_equal(a, xy[:2]) and float(b) == xy[2], 'unpack')
            c.ev('scores')
        c.case('score', {'psi': m.psi, 'xi': m.xi})


def posterior(c):
    for q, m in enumerate(models(c, 4 if not c.thorough else 30)):
        yobs = float(c.rng.uniform(-1, 3))
        x = np.sort(np.concatenate([grid(-7, 7, 221), c.rng.uniform(-7, 7, 20)])) if q % 2 else grid(-7, 7, 201)
        y = grid(-6.5, 6.5, 171)
        mesh = jnp.stack(jnp.meshgrid(x, y), -1)
        post = np.asarray(m.posterior(mesh, yobs))
        d = dict(psi=m.psi, xi=m.xi, y=yobs)
        c.case('posterior', d)
        c.expect(post.shape == (len(y), len(x)) and (post >= 0).all(), 'posterior on the mesh', got=post.shape, **d)
        c.close(np.trapz(np.trapz(post, x, axis=1), y), 1., 'the posterior integrates to one', rtol=1e-6, **d)
        lj = np.asarray(jax.vmap(jax.vmap(lambda p: m.log_prior_pdf(p) + m.log_cond_pdf_likelihood(yobs, p)))(mesh))
        i = post > 1e-10
        r = np.log(post[i]) - lj[i]
        c.expect(np.ptp(r) < 1e-6, 'the posterior is proportional to prior times likelihood', spread=np.ptp(r), **d)
        # Bayes: against the law of the sampler near the observation
        c.ev('posteriors')
    m = Crescent()
    xs, ys = m.sampler(c.key(), 4_000_000)
    xs, ys = np.asarray(xs), np.asarray(ys)
    for yobs in (.5, 2.5):
        sel = np.abs(ys - yobs) < .02
        x, y = grid(-7, 7, 201), grid(-6.5, 6.5, 171)
        post = np.asarray(m.posterior(jnp.stack(jnp.meshgrid(x, y), -1), yobs))
        I = lambda f: np.trapz(np.trapz(post * f, x, axis=1), y)
        X, Y = np.meshgrid(x, y)
        z = xs[sel]
        n = len(z)
        for nm, f in (('E phi_1^2', lambda a, b: a ** 2), ('E phi_2', lambda a, b: b), ('E phi_2^2', lambda a, b: b ** 2), ('E |phi_1|', lambda a, b: abs(a))):
            v = f(z[:, 0], z[:, 1])
            c.expect(abs(v.mean() - I(f(X, Y))) < 7 * v.std() / np.sqrt(n) + .01, f'posterior moments against the sampler: {nm}', got=I(f(X, Y)), sampled=v.mean(), n=n, y=yobs)
        c.case('posterior vs sampler', {'y': yobs, 'n': n})


run_sections(
    Check('C23', 'Random (psi, xi) x points x meshes (non-square, non-uniform); oracle: quadrature of the densities against the empirical law of the sampler; '
          'non-trivial = distinct model or observation', []),
    [densities, sampling, scores, posterior], integrals=12, sampling_laws=3, scores=10, posteriors=4)
