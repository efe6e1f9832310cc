"""C11: exact discretisations, moments, conditional scores and simulations of the linear SDEs, against the drift and the
dispersion of the very same SDE object."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib.core import *
import scipy.integrate
import scipy.linalg
import jax
jax.config.update('jax_enable_x64', True)
import jax.numpy as jnp
from fbs.sdes import make_linear_sde, make_ou_sde, StationaryConstLinearSDE, StationaryLinLinearSDE, StationaryExpLinearSDE
from fbs.utils import discretise_lti_sde


def random_sdes(rng, n):
    """(name, sde, lower time, upper time)"""
    for i in range(n):
        U = lambda a, b: float(rng.uniform(a, b))
        t0 = [0., U(-1, 1)][i % 2]
        T = t0 + U(.5, 4)
        yield 'const', StationaryConstLinearSDE(a=-U(.1, 2), b=U(.3, 2)), t0, T
        b0 = U(.01, 1.)
        yield 'lin', StationaryLinLinearSDE(beta_min=b0, beta_max=b0 + U(.1, 8), t0=t0, T=T), t0, T
        yield 'exp', StationaryExpLinearSDE(a=-U(.1, 2), b=U(.3, 2), c=U(.2, 1.5) * (-1) ** i, z=U(-1, 2)), t0, T
    yield 'const+', StationaryConstLinearSDE(a=.4, b=.7), 0., 1.5
    yield 'lin=', StationaryLinLinearSDE(beta_min=1.3, beta_max=1.3, t0=0., T=2.), 0., 2.
    yield 'lin0', StationaryLinLinearSDE(beta_min=0., beta_max=3., t0=0., T=2.), 0., 2.
    yield 'lindec', StationaryLinLinearSDE(beta_min=3., beta_max=.2, t0=.5, T=2.), .5, 2.


def ode(sde, s, t):
    """F and Q by integrating dF = a F, dQ = 2 a Q + b^2 with a, b observed from the SDE object."""
    a = lambda r: float(sde.drift(jnp.asarray(1.), r))
    b2 = lambda r: float(sde.dispersion(r)) ** 2
    sol = scipy.integrate.solve_ivp(lambda r, z: [a(r) * z[0], 2 * a(r) * z[1] + b2(r)], (s, t), [1., 0.], rtol=1e-9, atol=1e-11)
    return sol.y[0, -1], sol.y[1, -1]


def discretisation(c):
    for nm, sde, lo, hi in random_sdes(c.rng, 4 if not c.thorough else 25):
        disc, score, _ = make_linear_sde(sde)
        d = dict(sde=nm, params=sde.__dict__)
        c.case('discretisation', {**d, 'lo': lo, 'hi': hi})
        r = np.sort(c.rng.uniform(lo, hi, 6))
        s, u, t = r[0], r[2], r[5]
        for x, y in ((s, t), (u, t), (s, u)):
            F, Q = ode(sde, x, y)
            c.close(disc(y, x)[0], F, 'transition coefficient F(t, s)', rtol=1e-6, atol=1e-8, **d)
            c.close(disc(y, x)[1], Q, 'transition variance Q(t, s)', rtol=1e-6, atol=1e-8, **d)
            c.ev('ode_comparisons')
        (F1, Q1), (F2, Q2), (F, Q) = disc(u, s), disc(t, u), disc(t, s)
        c.close(F, F1 * F2, 'semigroup property of F', rtol=1e-9, **d)
        c.close(Q, F2 ** 2 * Q1 + Q2, 'semigroup property of Q', rtol=1e-9, atol=1e-12, **d)
        F0, Q0 = disc(u, u)
        c.close(F0, 1., 'F(s, s) = 1', **d), c.close(Q0, 0., 'Q(s, s) = 0', **d)
        # linear drift, no state dependence
        x = c.rng.normal(size=(3, 2))
        c.close(sde.drift(jnp.asarray(2 * x), u), 2 * np.asarray(sde.drift(jnp.asarray(x), u)), 'the drift is linear', **d)
        # arrays of times
        rr = jnp.asarray(r)
        Fv, Qv = disc(rr[1:], rr[:-1])
        Fw, Qw = zip(*[disc(float(r[i + 1]), float(r[i])) for i in range(5)])
        c.close(Fv, np.array(Fw), 'vectorised F', **d), c.close(Qv, np.array(Qw), 'vectorised Q', **d)
        c.expect(np.all(np.asarray(Qv) > 0), 'transition variances are positive', **d)
        # moments of the SDE object
        m0 = c.rng.normal(size=(2, 3))
        if hasattr(sde, 'mean'):
            c.close(sde.mean(t, s, jnp.asarray(m0)), m0 * float(F), 'sde.mean', **d)
            c.close(sde.variance(t, s), float(Q), 'sde.variance', rtol=1e-9, **d)
            c.close(jax.vmap(sde.mean, in_axes=[0, None, None])(rr, rr[0], jnp.asarray(m0)), np.asarray([disc(q, r[0])[0] for q in r])[:, None, None] * m0,
                    'sde.mean over times', **d)
            c.close(sde.variance(rr[1:], rr[:-1]), Qv, 'sde.variance over times', rtol=1e-9, **d)
        # conditional score
        x, x0 = c.rng.normal(size=(2, 2, 3))
        c.close(score(jnp.asarray(x), t, jnp.asarray(x0), s), -(x - float(F) * x0) / float(Q), 'conditional score', rtol=1e-8, **d)
        lp = lambda z: jnp.sum(jax.scipy.stats.norm.logpdf(z, F * x0, jnp.sqrt(Q)))
        c.close(score(jnp.asarray(x), t, jnp.asarray(x0), s), jax.grad(lp)(jnp.asarray(x)), 'conditional score is the gradient of the log density', rtol=1e-8, **d)
        # short and shorter steps
        for gap in (3e-2, 1e-3, 1e-5):
            y = float(c.rng.uniform(lo, hi - gap))
            (Fg, Qg), (Fo, Qo) = disc(y + gap, y), ode(sde, y, y + gap)
            c.close(Fg, Fo, 'F over a short step', rtol=1e-6, gap=gap, s=y, **d)
            c.close(Qg, Qo, 'Q over a short step', rtol=1e-4, gap=gap, s=y, **d)
            xg = float(Fg) * x0 + math.sqrt(float(Qg)) * x
            c.close(score(jnp.asarray(xg), y + gap, jnp.asarray(x0), y), -x / math.sqrt(float(Qg)), 'conditional score over a short step', rtol=1e-5, gap=gap, s=y, **d)
            c.ev('short_steps')
        # float32 usage is the same function
        f32 = lambda z: jnp.asarray(z, jnp.float32)
        Ff, Qf = disc(f32(t), f32(s))
        c.close(Ff, F, 'float32 F', rtol=1e-4, atol=1e-5, **d), c.close(Qf, Q, 'float32 Q', rtol=1e-3, atol=1e-4, **d)


def stationarity(c):
    """-b^2 / (2 a) is the variance every transition leaves as is."""
    for nm, sde, lo, hi in random_sdes(c.rng, 4 if not c.thorough else 25):
        if nm == 'const+':
            continue
        disc, _, _ = make_linear_sde(sde)
        S = 1. if 'lin' in nm else -sde.b ** 2 / (2 * sde.a)
        for _ in range(5):
            s, t = np.sort(c.rng.uniform(lo, hi, 2))
            F, Q = disc(t, s)
            c.close(F ** 2 * S + Q, S, 'stationary variance', rtol=1e-9, sde=nm, params=sde.__dict__)
            a, b = sde.drift(jnp.asarray(1.), t), sde.dispersion(t)
            c.close(2 * a * S + b ** 2, 0., 'drift and dispersion balance at the stationary variance', atol=1e-9, sde=nm, params=sde.__dict__)
        c.case('stationarity', {'sde': nm, 'params': sde.__dict__})


def ou(c):
    for _ in range(4 if not c.thorough else 30):
        a, b = -float(c.rng.uniform(.1, 2)), float(c.rng.uniform(.3, 2))
        disc, score, _ = make_ou_sde(a, b)
        ldisc, lscore, _ = make_linear_sde(StationaryConstLinearSDE(a=a, b=b))
        s, t = np.sort(c.rng.uniform(-1, 3, 2))
        c.case('ou', {'a': a, 'b': b})
        for g, w, n in zip(disc(t - s), ldisc(t, s), 'FQ'):
            c.close(g, w, f'OU {n}', rtol=1e-9, a=a, b=b)
        F, Q = disc(t - s)
        c.close(Q, scipy.integrate.quad(lambda r: b ** 2 * np.exp(2 * a * r), 0, t - s)[0], 'OU Q', rtol=1e-7)
        x, x0 = c.rng.normal(size=(2, 3))
        c.close(score(jnp.asarray(x), t - s, jnp.asarray(x0)), lscore(jnp.asarray(x), t, jnp.asarray(x0), s), 'OU score', rtol=1e-9)


def lti(c):
    for q in range(9 if not c.thorough else 60):
        n = int(c.rng.integers(1, 5))
        A, B = c.rng.normal(size=(n, n)), c.rng.normal(size=(n, int(c.rng.integers(1, n + 1))))
        dt = float(c.rng.uniform(.01, 1.2))
        if q % 3 == 2:  # an oscillator over a long step: the norm of A dt is large while nothing explodes
            n = max(n, 2)
            A, B = c.rng.normal(size=(n, n)), c.rng.normal(size=(n, 2))
            A = A - A.T
            A, dt = A * float(c.rng.uniform(25, 35)) / np.linalg.norm(A, 2), 1.
        F, Q = discretise_lti_sde(jnp.asarray(A), jnp.asarray(B @ B.T), dt)
        c.case('lti', {'A': A, 'dt': dt})
        c.close(F, scipy.linalg.expm(A * dt), 'LTI transition matrix', rtol=1e-8, atol=1e-9)
        g, w = np.polynomial.legendre.leggauss(24 if q % 3 != 2 else 120)
        want = sum(wi * dt / 2 * (E := scipy.linalg.expm(A * (gi + 1) * dt / 2)) @ B @ B.T @ E.T for gi, wi in zip(g, w))
        c.close(Q, want, 'LTI covariance', rtol=1e-7, atol=1e-8, A=A, dt=dt)
        c.close(Q, np.asarray(Q).T, 'LTI covariance is symmetric', atol=1e-9)
        F2, Q2 = discretise_lti_sde(jnp.asarray(A), jnp.asarray(B @ B.T), 2 * dt)
        c.close(F2, np.asarray(F) @ np.asarray(F), 'LTI semigroup', rtol=1e-7, atol=1e-8)
        c.close(Q2, np.asarray(F) @ np.asarray(Q) @ np.asarray(F).T + np.asarray(Q), 'LTI semigroup of the covariance', rtol=1e-7, atol=1e-8)


def law_of(c, name, sim, disc, x0, ts, mode, t0, d):
    """moments of the whole standardised path; `disc(t, s)`"""
    x0 = np.asarray(x0)
    nt = len(ts)
    pairs = [(ts[k + 1], ts[k]) for k in range(nt - 1)] if mode == 'path' else [(t, t0) for t in ts]
    FQ = np.array([[float(z) for z in disc(*q)] for q in pairs])
    F, Q = [FQ[:, i].reshape(-1, *(1,) * x0.ndim) for i in range(2)]

    def one(key):
        p = sim(key)
        if mode == 'path':
            z = (p[1:] - F * p[:-1]) / jnp.sqrt(Q)
            ok = jnp.max(jnp.abs(p[0] - x0))
        else:
            z0 = p - F * x0
            z = jnp.where(Q > 1e-9, z0 / jnp.sqrt(jnp.where(Q > 1e-9, Q, 1.)), 0)
            ok = jnp.max(jnp.where(Q > 1e-9, 0, jnp.abs(z0)))
            z = z[1:] if float(Q.ravel()[0]) < 1e-9 else z
        z = z.ravel()
        return jnp.concatenate([z, jnp.outer(z, z).ravel(), (z ** 3), ok[None]])

    nz = (nt - 1 if mode == 'path' or abs(ts[0] - t0) < 1e-9 else nt) * x0.size
    want = np.concatenate([np.zeros(nz), np.eye(nz).ravel(), np.zeros(nz), [0.]])
    c.ev('simulation_laws')
    c.mean(f'{name} ({mode}): standardised innovations must be iid N(0, 1)', vdraw(one), want, R=60_000, abs_tol=1e-7, z1=4.2, **d)


def simulate(c):
    for q, (nm, sde, lo, hi) in enumerate(list(random_sdes(c.rng, 1 if not c.thorough else 4))):
        disc, _, sim = make_linear_sde(sde)
        shape = [(), (2,), (2, 1), (2, 1, 2)][q % 4]
        x0 = c.rng.normal(size=shape) * 2
        ts = np.sort(c.rng.uniform(lo, hi, 4))
        ts = ts[0] + np.array([0., *np.cumsum(np.maximum(np.diff(ts), .05))])
        tsj, x0j = jnp.asarray(ts), jnp.asarray(x0)
        d = dict(sde=nm, params=sde.__dict__, shape=shape, ts=ts)
        c.case('simulate', d)
        law_of(c, 'simulate_cond_forward', lambda k: sim(k, x0j, tsj), disc, x0, ts, 'path', ts[0], d)
        law_of(c, 'simulate_cond_forward', lambda k: sim(k, x0j, tsj, keep_path=False), disc, x0, ts, 'marginal', ts[0], d)
        t0 = ts[0] - .3 if 'lin' not in nm else max(lo, ts[0] - .3)
        law_of(c, 'simulate_cond_forward with t0', lambda k: sim(k, x0j, tsj, t0=t0, keep_path=False), disc, x0, ts, 'marginal', t0, d)
        p = sim(c.key(), x0j, tsj)
        c.expect(p.shape == (len(ts), *shape), 'shape of the path', got=p.shape, **d)
        c.close(p[0], x0, 'the path starts at x0', **d)
        # one time per sample, as in the memory-saving loss
        one = jax.vmap(lambda k, x, t: sim(k, x, t, t0=t0, keep_path=False))(jax.random.split(c.key(), len(ts)), jnp.broadcast_to(x0j, (len(ts), *shape)), tsj)
        c.expect(one.shape == (len(ts), *shape), 'shape of scalar-time simulation', got=one.shape, **d)
        law_of(c, 'scalar-time simulation', lambda k: jnp.stack([sim(jax.random.fold_in(k, i), x0j, tsj[i], t0=t0, keep_path=False) for i in range(len(ts))]),
               disc, x0, ts, 'marginal', t0, d)
    for start in (0., .7):
        a, b = -.6, 1.3
        disc, _, sim = make_ou_sde(a, b)
        ts = start + np.array([0., .3, .8, 1.7])
        x0 = c.rng.normal(size=2)
        c.case('simulate', {'ou': start})
        g = lambda t, s: disc(t - s)
        law_of(c, 'OU simulation', lambda k: sim(k, jnp.asarray(x0), jnp.asarray(ts)), g, x0, ts, 'path', start, dict(start=start))
        law_of(c, 'OU simulation', lambda k: sim(k, jnp.asarray(x0), jnp.asarray(ts), keep_path=False), g, x0, ts, 'marginal', start, dict(start=start))


run_sections(
    Check('C11', 'Random SDE parameters x times x state shapes x simulation mode; oracle: numerical ODE integration of the drift and dispersion of the '
          'same object, closed forms, innovations of simulated paths; non-trivial = distinct parameter sets',
          ['StationaryLinLinearSDE within [t0, T]', 'increasing times']),
    [discretisation, stationarity, ou, lti, simulate], ode_comparisons=30, simulation_laws=15)
