"""C14: the losses that learn the backward SDE. The network under training is a recording monitor: from what it was fed, the
loss is recomputed, and the law of the training times and states is tested."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib.core import *
import jax
jax.config.update('jax_enable_x64', True)
import jax.numpy as jnp
from lib.monitor import Recorder, by_name
from fbs.sdes import (make_linear_sde, make_linear_sde_law_loss, make_ou_sde, make_ou_score_matching_loss, StationaryConstLinearSDE,
                      StationaryLinLinearSDE, StationaryExpLinearSDE)


def configs(c, n):
    for i in range(n):
        U = lambda a, b: float(c.rng.uniform(a, b))
        t0 = [0., U(.1, 1)][i % 2]
        T = t0 + U(.5, 2)
        sde = [StationaryConstLinearSDE(a=-U(.1, 1.5), b=U(.3, 2)), StationaryLinLinearSDE(beta_min=U(.05, .5), beta_max=U(1, 5), t0=t0, T=T),
               StationaryExpLinearSDE(a=-U(.1, 1), b=U(.3, 1.5), c=U(.3, 1.), z=U(0, 1))][i % 3]
        yield sde, t0, T


class Net:
    """f(x, t, param), recorded. Called with the batch (n, ...) and one time, or one time per sample."""

    def __init__(self):
        self.rec = Recorder()

    def h(self, xp, x, t, p):
        t = xp.reshape(t, (-1, *(1,) * (x.ndim - 1))) if xp.ndim(t) else t
        return xp.sin(x * p[0] + t) + p[1] * x

    def __call__(self, x, t, p):
        self.rec.emit('nn', x=x, t=t, p=p)
        return self.h(jnp, x, t, p)


def innovations(pool, disc, xs, x0s, ts):
    prev, tp = x0s, ts[0]
    for x, t in zip(xs, ts[1:]):
        F, Q = (float(z) for z in disc(t, tp))
        if Q > 1e-7:
            pool.append(((x - F * prev) / np.sqrt(Q)).ravel())
        prev, tp = x, t


def check_pool(c, what, pool, unit=None):
    z = np.concatenate(pool)
    c.ev('innovations', z.size)
    p = scipy.stats.kstest(z, 'norm').pvalue
    c.expect(p > 1e-10, f'{what}: states are not drawn from the forward SDE', p=p, n=z.size, mean=z.mean(), std=z.std())
    c.expect(len(np.unique(z.round(11))) > .999 * z.size, f'{what}: noises are shared between samples, steps or dimensions', distinct=len(np.unique(z.round(11))), n=z.size)


def full_losses(c):
    pool, units = [], []
    for q, (sde, t0, T) in enumerate(configs(c, 12 if not c.thorough else 90)):
        shape = [(2,), (1,), (3, 2), ()][q % 4]
        n, nsteps = int([c.rng.integers(2, 6), 12, c.rng.integers(2, 6), c.rng.integers(2, 6), 33][q % 5]), int(c.rng.integers(2, 12))
        kind, rt = ['score', 'score', 'ipf', 'ipf-score'][(q // 2) % 4], bool((q + q // 4) % 2)
        disc, _, _ = make_linear_sde(sde)
        net, p = Net(), c.rng.normal(size=2)
        x0s = c.rng.normal(size=(n, *shape)) * 2
        loss_fn = make_linear_sde_law_loss(sde, net, t0=t0, T=T, nsteps=nsteps, random_times=rt, loss_type=kind, save_mem=False)
        d = dict(sde=type(sde).__name__, params=sde.__dict__, t0=t0, T=T, shape=shape, n=n, nsteps=nsteps, kind=kind, random_times=rt)
        val = float((jax.jit(loss_fn) if q % 2 else loss_fn)(jnp.asarray(p), c.key(), jnp.asarray(x0s)))
        one_full(c, d, net, p, x0s, disc, t0, T, nsteps, rt, kind, val, pool, units)
    check_pool(c, 'training states', pool)
    check_times(c, 'training times', units)


def check_times(c, what, units):
    u = np.concatenate(units)
    c.ev('random_times', u.size)
    p = scipy.stats.kstest(u, 'uniform').pvalue
    c.expect(p > 1e-9 and u.min() >= 0 and u.max() <= 1, f'{what}: random times are not uniform on the interval', p=p, n=u.size)
    c.expect(len(np.unique(u)) == u.size, f'{what}: random times are repeated')


def one_full(c, d, net, p, x0s, disc, t0, T, nsteps, rt, kind, val, pool, units):
    ev = by_name(net.rec.collect(), 'nn')
    c.case('loss', d)
    c.ev('network_evaluations', len(ev))
    ev = sorted(ev, key=lambda e: float(e['t']))
    ts = np.array([float(e['t']) for e in ev])
    if not c.expect(len(ts) == nsteps and all(e['x'].shape == x0s.shape for e in ev), 'one network evaluation of the whole batch per step', got=len(ts), **d):
        return
    for e in ev:
        c.close(e['p'], p, 'the parameter is passed to the network', **d)
    if rt:
        c.expect(np.all(ts > t0) and np.all(np.diff(ts) >= 0), 'random times lie in (t0, T]', ts=ts, **d)
        c.close(ts[-1], T, 'the terminal time is trained on', **d)
        units.append((ts[:-1] - t0) / (T - t0))
    else:
        c.close(ts, np.linspace(t0, T, nsteps + 1)[1:], 'equidistant times', atol=1e-9, **d)
    xs = [e['x'] for e in ev]
    tt = np.concatenate([[t0], ts])
    innovations(pool, disc, xs, x0s, tt)
    tot, prev = [], x0s
    for x, t, tp in zip(xs, tt[1:], tt[:-1]):
        nn = net.h(np, x, t, p)
        (F, Q), (f, q_) = disc(t, t0), disc(t, tp)
        F, Q, f, q_ = (float(z) for z in (F, Q, f, q_))
        if kind == 'score':
            tot.append(np.mean((nn + (x - F * x0s) / Q) ** 2) * Q)
        elif kind == 'ipf':
            tot.append(np.mean((nn - (x + f * prev - f * x)) ** 2))
        else:
            tot.append(np.mean((nn + (x - f * prev) / q_) ** 2))
        prev = x
    c.close(val, np.mean(tot), 'value of the loss', rtol=1e-5, atol=1e-9, **d)


def save_mem_losses(c):
    pool, units = [], []
    for q, (sde, t0, T) in enumerate(configs(c, 9 if not c.thorough else 60)):
        shape = [(2,), (1,), (3, 2), ()][q % 4]
        n, rt = int([c.rng.integers(2, 9), c.rng.integers(2, 9), 40][q % 3]), bool(q % 2)
        disc, _, _ = make_linear_sde(sde)
        net, p = Net(), c.rng.normal(size=2)
        x0s = c.rng.normal(size=(n, *shape)) * 2
        loss_fn = make_linear_sde_law_loss(sde, net, t0=t0, T=T, nsteps=7, random_times=rt, loss_type='score', save_mem=True)
        d = dict(sde=type(sde).__name__, params=sde.__dict__, t0=t0, T=T, shape=shape, n=n, save_mem=True, random_times=rt)
        val = float((jax.jit(loss_fn) if q % 2 else loss_fn)(jnp.asarray(p), c.key(), jnp.asarray(x0s)))
        ev = by_name(net.rec.collect(), 'nn')
        c.case('save_mem loss', d)
        c.ev('network_evaluations', len(ev))
        if not c.expect(len(ev) == 1 and ev[0]['x'].shape == x0s.shape and ev[0]['t'].shape == (n,), 'one network evaluation, one time per sample', **d):
            continue
        x, ts = ev[0]['x'], ev[0]['t']
        c.close(ev[0]['p'], p, 'the parameter is passed to the network', **d)
        if rt:
            c.expect(ts.min() > t0 and ts.max() <= T, 'random times lie in (t0, T]', ts=ts, **d)
            c.close(ts.max(), T, 'the terminal time is trained on', **d)
            units.append((np.sort(ts)[:-1] - t0) / (T - t0))
        else:
            c.close(np.sort(ts), np.linspace(t0, T, n + 1)[1:], 'equidistant times', atol=1e-9, **d)
        FQ = np.array([[float(z) for z in disc(t, t0)] for t in ts])
        F, Q = (FQ[:, i].reshape(n, *(1,) * len(shape)) for i in range(2))
        pool.append(((x - F * x0s) / np.sqrt(Q)).ravel())
        nn = net.h(np, x, ts, p)
        per = ((nn + (x - F * x0s) / Q) ** 2).reshape(n, -1).mean(1)
        c.close(val, np.mean(per * FQ[:, 1]), 'value of the loss (save_mem)', rtol=1e-6, atol=1e-9, **d)
    check_pool(c, 'training states (save_mem)', pool)
    check_times(c, 'training times (save_mem)', units)


def many_times(c):
    """The law of the random times, with thousands of them (only the times are recorded)."""
    for q, (sde, t0, T) in enumerate(configs(c, 3)):
        for mem in (False, True):
            rec, N = Recorder(), 2500

            def net(x, t, p):
                rec.emit('nn', t=t)
                return x * p
            loss_fn = jax.jit(make_linear_sde_law_loss(sde, net, t0=t0, T=T, nsteps=7 if mem else N, random_times=True, loss_type='score', save_mem=mem))
            units = []
            for _ in range(6 if not c.thorough else 30):
                loss_fn(jnp.asarray(.3), c.key(), jnp.asarray(c.rng.normal(size=(N if mem else 2, 1)))).block_until_ready()
                ts = np.sort(np.concatenate([np.ravel(e['t']) for e in by_name(rec.collect(), 'nn')]))
                if not c.expect(ts.size == N, 'one time per step', got=ts.size, mem=mem):
                    return
                units.append((ts[:-1] - t0) / (T - t0))
            c.case('times', {'sde': type(sde).__name__, 't0': t0, 'T': T, 'mem': mem})
            check_times(c, f'training times (save_mem={mem}, thousands)', units)


def ou_losses(c):
    pool, units = [], []
    for q in range(8 if not c.thorough else 40):
        a, b = -float(c.rng.uniform(.2, 1.5)), float(c.rng.uniform(.4, 2))
        t0 = [0., .6][q % 2]
        T, n, nsteps, dim, rt = t0 + float(c.rng.uniform(.5, 2)), int(c.rng.integers(2, 6)), int(c.rng.integers(2, 10)), int(c.rng.integers(1, 4)), bool(q // 2 % 2)
        disc, _, _ = make_ou_sde(a, b)
        net, p = Net(), c.rng.normal(size=2)
        x0s = c.rng.normal(size=(n, dim))
        loss_fn = make_ou_score_matching_loss(a, b, net, t0=t0, T=T, nsteps=nsteps, random_times=rt)
        d = dict(ou=(a, b), t0=t0, T=T, n=n, nsteps=nsteps, dim=dim, random_times=rt)
        val = float(loss_fn(jnp.asarray(p), c.key(), jnp.asarray(x0s)))
        one_full(c, d, net, p, x0s, lambda t, s: disc(t - s), t0, T, nsteps, rt, 'score', val, pool, units)
    check_pool(c, 'OU training states', pool)
    check_times(c, 'OU training times', units)


def optimum(c):
    """The loss vanishes at the exact conditional score of a point mass, is positive elsewhere, and its gradient is that of the recomputed loss."""
    for q, (sde, t0, T) in enumerate(configs(c, 6 if not c.thorough else 30)):
        disc, score, _ = make_linear_sde(sde)
        x0 = c.rng.normal(size=(2,))
        nn = lambda x, t, p: jax.vmap(score, in_axes=[0, 0 if jnp.ndim(t) else None, None, None])(x, t, jnp.asarray(x0), t0) + p
        for mem in (False, True):
            lf = make_linear_sde_law_loss(sde, nn, t0=t0, T=T, nsteps=5, loss_type='score', save_mem=mem)
            k, xs = c.key(), jnp.broadcast_to(jnp.asarray(x0), (4, 2))
            c.case('optimum', {'sde': type(sde).__name__, 'params': sde.__dict__, 'mem': mem})
            c.close(lf(0., k, xs), 0., 'loss at the exact score', atol=1e-10)
            c.close(jax.grad(lf)(0., k, xs), 0., 'gradient of the loss at the exact score', atol=1e-9)
            v1, v2 = float(lf(.5, k, xs)), float(lf(1., k, xs))
            c.expect(v1 > 1e-6, 'the loss is positive away from the optimum', v=v1)
            c.close(v2, 4 * v1, 'the loss is quadratic in the error', rtol=1e-6)
            c.close(jax.grad(lf)(.5, k, xs), 4 * v1, 'gradient of the loss', rtol=1e-6)


run_sections(
    Check('C14', 'Random SDEs x times x batch and state shapes x loss type x random/equidistant times; the network is a recorder; oracle: loss recomputed '
          'from the recorded network inputs; non-trivial = distinct configuration', ["save_mem is claimed for the 'score' loss only"]),
    [full_losses, save_mem_losses, many_times, ou_losses, optimum], network_evaluations=100, innovations=500, random_times=50_000)
