"""C12: Euler-Maruyama, reverse-time and discrete-time simulators: which times the coefficients are evaluated at, and the law
of the simulated paths (exact recursions), for any time grid, direction and number of substeps."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib.core import *
import jax
jax.config.update('jax_enable_x64', True)
import jax.numpy as jnp
from lib.monitor import Recorder, by_name
from fbs.sdes import euler_maruyama, reverse_simulator, discrete_time_simulator, make_linear_sde, StationaryConstLinearSDE, StationaryLinLinearSDE

DR = lambda xp, x, t: xp.sin(x + 2 * t) - .5 * x * t
DI = lambda xp, t: .3 + .5 * xp.cos(3 * t) ** 2


def grids(c, n):
    out = [np.array([0., .3, .9, 1.]), np.array([2., 1.4, 1.1, .2]), np.array([.5, .6]), np.linspace(-1, 1, 6), np.array([0., 1e-3, 1., 1.5])]
    for _ in range(n):
        g = np.cumsum(c.rng.uniform(.05, .8, c.rng.integers(2, 7))) + c.rng.normal()
        out.append(g if c.rng.integers(2) else g[::-1].copy())
    return out


def substeps(ts, m):
    """(t, dt) of every Euler step, grouped by step of the grid"""
    return [[(ts[k] + j * (ts[k + 1] - ts[k]) / m, abs(ts[k + 1] - ts[k]) / m) for j in range(m)] for k in range(len(ts) - 1)]


def ode_limit(c):
    """Without noise the path is the explicit Euler path: every substep, grid, direction and shape."""
    for ts in grids(c, 3 if not c.thorough else 40):
        m, shape = int(c.rng.integers(1, 6)), [(), (2,), (3, 1, 2)][c.rng.integers(3)]
        x0 = c.rng.normal(size=shape)
        x, want = x0.copy(), [x0]
        for blk in substeps(ts, m):
            for t, dt in blk:
                x = x + DR(np, x, t) * dt
            want.append(x)
        d = dict(ts=ts, m=m, shape=shape)
        args = (c.key(), jnp.asarray(x0), jnp.asarray(ts), lambda x_, t: DR(jnp, x_, t), lambda t: 0.)
        c.case('euler', d)
        c.close(euler_maruyama(*args, integration_nsteps=m, return_path=True), np.array(want), 'Euler path', rtol=1e-9, atol=1e-10, **d)
        c.close(euler_maruyama(*args, integration_nsteps=m), want[-1], 'Euler terminal value', rtol=1e-9, atol=1e-10, **d)
        T = ts[-1]
        x, sc = x0.copy(), lambda xp, x_, t: xp.cos(x_ - t)
        for blk in substeps(ts, m):
            for t, dt in blk:
                x = x + (-DR(np, x, T - t) + 0. * sc(np, x, T - t)) * dt
        c.close(reverse_simulator(c.key(), jnp.asarray(x0), jnp.asarray(ts), lambda x_, t: sc(jnp, x_, t), lambda x_, t: DR(jnp, x_, t), lambda t: 0.,
                                  integration_nsteps=m), x, 'reverse Euler terminal value', rtol=1e-9, atol=1e-10, **d)


def traces(c):
    """Recorded coefficient evaluations of single stochastic runs; innovations are pooled and must be standard normal."""
    rec = Recorder()
    pool = []

    def drift(x, t):
        rec.emit('f', x=x, t=t)
        return DR(jnp, x, t)

    def disp(t):
        rec.emit('g', t=t)
        return DI(jnp, t)

    def score(x, t):
        rec.emit('s', x=x, t=t)
        return jnp.cos(x - t)

    for ts in grids(c, 4 if not c.thorough else 40):
        m, shape = int(c.rng.integers(1, 5)), [(), (2,), (3, 2)][c.rng.integers(3)]
        x0 = c.rng.normal(size=shape)
        steps = substeps(ts, m)
        flat = [s for b in steps for s in b]
        d = dict(ts=ts, m=m, shape=shape)
        for kind in ('em', 'reverse'):
            if kind == 'em':
                path = np.asarray(euler_maruyama(c.key(), jnp.asarray(x0), jnp.asarray(ts), drift, disp, integration_nsteps=m, return_path=True))
                end, tt = path[-1], [t for t, _ in flat]
                c.close(path[0], x0, 'the path starts at x0', **d)
            else:
                end = np.asarray(reverse_simulator(c.key(), jnp.asarray(x0), jnp.asarray(ts), score, drift, disp, integration_nsteps=m))
                tt = [ts[-1] - t for t, _ in flat]
            ev = rec.collect()
            c.ev('coefficient_evaluations', len(ev))
            c.case('trace', {**d, 'kind': kind})
            tt = np.array(tt)
            ok = True
            for nm in 'fgs' if kind == 'reverse' else 'fg':
                got = np.array([float(e['t']) for e in by_name(ev, nm)])
                ok &= c.expect(len(got) and np.abs(got[:, None] - tt).min(1).max() < 1e-9 and np.abs(got[:, None] - tt).min(0).max() < 1e-9,
                               f'{kind}: coefficients are evaluated at the substep times exactly', coefficient=nm, got=got, want=tt, **d)
            if not ok:
                continue
            f = {int(np.abs(tt - float(e['t'])).argmin()): e['x'] for e in by_name(ev, 'f')}
            xs = [f[j] for j in range(len(flat))] + [end]
            c.close(xs[0], x0, f'{kind}: starts at the initial value', **d)
            if kind == 'em':
                c.close(np.array(xs[::m]), path, 'the path is made of the states at the grid times', **d)
            for j, (t, dt) in enumerate(flat):
                x, t = xs[j], tt[j]
                b = DR(np, x, t) if kind == 'em' else -DR(np, x, t) + DI(np, t) ** 2 * np.cos(x - t)
                pool.append(((xs[j + 1] - x - b * dt) / (DI(np, t) * np.sqrt(dt))).ravel())
    z = np.concatenate(pool)
    c.ev('innovations', z.size)
    n = len(z)
    p = scipy.stats.kstest(z, 'norm').pvalue
    c.expect(p > 1e-9, 'innovations of the recorded runs are not standard normal', p=p, n=n, std=z.std())
    c.expect(len(np.unique(z.round(12))) == n, 'innovations are repeated', distinct=len(np.unique(z.round(12))), n=n)


def linear_moments(c):
    """Linear coefficients: the joint law of the whole path is Gaussian with exactly computable moments."""
    a, b0 = lambda t: -.7 + .4 * np.sin(t), lambda t: .6 + .3 * t ** 2
    for q, ts in enumerate(grids(c, 1 if not c.thorough else 12)):
        m, dim, T = [1, 3, 2, 4, 1][q % 5], 2, ts[-1]
        x0 = c.rng.normal(size=dim)
        M = c.rng.normal(size=(dim, dim)) * .5
        aj, bj = lambda t: -.7 + .4 * jnp.sin(t), lambda t: .6 + .3 * t ** 2
        for kind in ('em', 'reverse', 'discrete'):
            # x_{j+1} = A x + o + s w
            if kind == 'discrete':
                blocks = [[(M + np.eye(dim) * (t1 - .3 * t), np.full(dim, t1 * t), .5 + abs(t1 - 2 * t))] for t, t1 in zip(ts[:-1], ts[1:])]
                run = lambda k: discrete_time_simulator(k, jnp.asarray(x0), jnp.asarray(ts), lambda x, t1, t: x @ M.T + x * (t1 - .3 * t) + t1 * t,
                                                        lambda t1, t: .5 + jnp.abs(t1 - 2 * t))
            else:
                blocks = []
                for blk in substeps(ts, m):
                    L = []
                    for t, dt in blk:
                        if kind == 'em':
                            L.append((np.eye(dim) + a(t) * M * dt, np.full(dim, t * dt), b0(t) * np.sqrt(dt)))
                        else:
                            r = T - t
                            L.append((np.eye(dim) + dt * (-a(r) * M - b0(r) ** 2 * .8 * np.eye(dim)), dt * (-r + b0(r) ** 2 * .2 * r) * np.ones(dim),
                                      b0(r) * np.sqrt(dt)))
                    blocks.append(L)
                if kind == 'em':
                    run = lambda k: euler_maruyama(k, jnp.asarray(x0), jnp.asarray(ts), lambda x, t: aj(t) * (M @ x) + t, bj, integration_nsteps=m, return_path=True)[1:].ravel()
                else:
                    run = lambda k: reverse_simulator(k, jnp.asarray(x0), jnp.asarray(ts), lambda x, t: -.8 * x + .2 * t, lambda x, t: aj(t) * (M @ x) + t, bj,
                                                      integration_nsteps=m)
            means, S, mu = [], np.zeros((dim, dim)), x0.copy()
            K = len(ts) - 1
            big = np.zeros((K * dim, K * dim))
            for k, L in enumerate(blocks):
                G = np.eye(dim)
                for A, o, s in L:
                    mu, S, G = A @ mu + o, A @ S @ A.T + s ** 2 * np.eye(dim), A @ G
                if k:
                    big[k * dim:(k + 1) * dim, :k * dim] = G @ big[(k - 1) * dim:k * dim, :k * dim]
                    big[:k * dim, k * dim:(k + 1) * dim] = big[k * dim:(k + 1) * dim, :k * dim].T
                big[k * dim:(k + 1) * dim, k * dim:(k + 1) * dim] = S
                means.append(mu)
            mm, C = (np.concatenate(means), big) if kind == 'em' else (means[-1], S)
            W = np.linalg.inv(np.linalg.cholesky(C))
            nz = len(mm)

            def one(key):
                z = W @ (run(key) - mm)
                return jnp.concatenate([z, jnp.outer(z, z).ravel(), z ** 3])
            c.case('moments', {'ts': ts, 'm': m, 'kind': kind})
            c.ev('path_laws')
            c.mean(f'{kind}: standardised path', vdraw(one), np.concatenate([np.zeros(nz), np.eye(nz).ravel(), np.zeros(nz)]), R=50_000, z1=4.2, abs_tol=1e-6,
                   ts=ts, m=m)


def consistency(c):
    """Terminal value = last state of the path for the same key; float32; jit; time reversal recovers the data law."""
    for ts in grids(c, 2):
        k, x0 = c.key(), jnp.asarray(c.rng.normal(size=(2, 2)))
        f, g = lambda x, t: DR(jnp, x, t), lambda t: DI(jnp, t)
        c.case('consistency', {'ts': ts})
        p = euler_maruyama(k, x0, jnp.asarray(ts), f, g, integration_nsteps=3, return_path=True)
        c.close(euler_maruyama(k, x0, jnp.asarray(ts), f, g, integration_nsteps=3), p[-1], 'terminal value vs path', rtol=1e-9, ts=ts)
        c.expect(p.shape == (len(ts), 2, 2), 'shape of the path', got=p.shape)
        j = jax.jit(lambda k_: euler_maruyama(k_, x0, jnp.asarray(ts), f, g, integration_nsteps=3, return_path=True))(k)
        c.close(j, p, 'jit changes the path', rtol=1e-8, atol=1e-9)
    for sde in (StationaryConstLinearSDE(a=-.5, b=1.), StationaryLinLinearSDE(beta_min=.1, beta_max=3., t0=0., T=2.)):
        T, m0, v0 = 2., 1.3, .25
        disc, _, _ = make_linear_sde(sde)
        FQ = disc(T, 0.)

        def score(x, t):
            F, Q = disc(t, 0.)
            return -(x - F * m0) / (F ** 2 * v0 + Q)
        ts = jnp.linspace(0., T, 201)

        def one(key):
            k1, k2 = jax.random.split(key)
            xT = FQ[0] * m0 + jnp.sqrt(FQ[0] ** 2 * v0 + FQ[1]) * jax.random.normal(k1)
            x = reverse_simulator(k2, xT, ts, score, sde.drift, sde.dispersion)
            return jnp.stack([x, (x - m0) ** 2])
        c.case('reversal', {'sde': type(sde).__name__})
        c.ev('path_laws')
        c.mean('time reversal with the exact score recovers the initial law', vdraw(one), [m0, v0], R=20_000, abs_tol=.02)


run_sections(
    Check('C12', 'Random time grids (increasing, decreasing, non-uniform) x substeps x state shapes; recorded coefficient evaluations; exact moments of '
          'linear models; non-trivial = distinct (grid, substeps, shape, simulator)', []),
    [ode_limit, traces, linear_moments, consistency], coefficient_evaluations=100, innovations=100, path_laws=15)
