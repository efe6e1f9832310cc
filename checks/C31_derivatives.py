"""C31: automatic differentiation through the library gives the derivatives of what it computes (double precision, difference quotients of the
same call as oracle)."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib.core import *
import jax
jax.config.update('jax_enable_x64', True)
import jax.numpy as jnp
import jax.flatten_util
from fbs.nn import make_st_nn
from fbs.nn.models import CrescentMLP, GMSBMLP, MNISTResConv
from fbs.nn.unet import UNet
from fbs.sdes import make_linear_sde, make_linear_sde_law_loss, StationaryConstLinearSDE, StationaryLinLinearSDE, StationaryExpLinearSDE
from fbs.sdes.linear import make_ou_sde, make_ou_score_matching_loss, make_gaussian_bw_sb
from fbs.sdes.simulators import euler_maruyama, reverse_simulator, discrete_time_simulator, doob_bridge_simulator
from fbs.dsb.base import ipf_loss_disc, ipf_loss_cont, ipf_loss_cont_v
from fbs.data.bayesian import Crescent
from fbs.utils import bures_dist, kl

flat = lambda tree: jnp.concatenate([jnp.ravel(z).astype(jnp.float64) for z in jax.tree_util.tree_leaves(tree)])


class Slope:
    """(f: array -> pytree of floats): difference quotients, forward- and reverse-mode derivatives, all compiled once"""
    def __init__(self, f, step=1e-4, agree=1e-5, tol=2e-4, forward=True):
        self.step, self.agree, self.tol, self.forward = step, agree, tol, forward
        self.f = jax.jit(lambda x: flat(f(x)))
        self.jvp = jax.jit(lambda x, d: jax.jvp(lambda z: flat(f(z)), (x,), (d,))[1])
        self.vjp = jax.jit(lambda x, w: jax.vjp(lambda z: flat(f(z)), x)[1](w)[0])

    def quotient(self, x, d, h):
        g = lambda s: np.asarray(self.f(x + s * d))
        return (8 * (g(h) - g(-h)) - (g(2 * h) - g(-2 * h))) / (12 * h)

    def judge(self, c, nm, x, d, **info):
        """-> False where there is no derivative to compare with (a kink: the quotients of two step sizes differ)"""
        a, b = self.quotient(x, d, self.step), self.quotient(x, d, self.step / (5 if self.step < 1e-3 else 2))
        size = np.abs(b).max() + 1e-8 + 1e-6 * np.abs(np.asarray(self.f(x))).max()
        if not (np.isfinite(b).all() and np.abs(a - b).max() < self.agree * size):
            c.ev('kinks')
            return False
        c.ev('directions')
        w = jnp.asarray(c.rng.normal(size=b.shape))
        want = float(b @ np.asarray(w))
        got = float(jnp.vdot(self.vjp(x, w), d))
        c.expect(np.abs(got - want) < self.tol * size * np.sqrt(b.size), 'reverse-mode derivative (gradient)', call=nm, got=got, want=want, size=size, **info)
        if self.forward:
            c.expect(np.abs(np.asarray(self.jvp(x, d)) - b).max() < self.tol * size, 'forward-mode derivative', call=nm, **info)
        return True


def draws(c, x, n):
    for _ in range(n):
        yield jnp.asarray(c.rng.normal(size=x.shape))
    if x.size <= 12:
        yield from jnp.eye(x.size).reshape(-1, *x.shape)


def smooth(c, jobs, n=6, reps=3, key='functions'):
    for nm, (f, draw) in jobs.items():
        s = Slope(f)
        for _ in range(reps * (5 if c.thorough else 1)):
            x = jnp.asarray(draw(c.rng), jnp.float64)
            c.case(key, {'call': nm, 'x': x.ravel()[:6]})
            ok = [s.judge(c, nm, x, d) for d in draws(c, x, n)]
            if not any(ok):
                raise RuntimeError(f'{nm}: no derivative was observed')
        c.ev(key)


def net(x, t, p):
    """a small smooth network with every parameter in use"""
    t = jnp.reshape(t, (-1, *(1,) * (x.ndim - 1))) if jnp.ndim(t) else t
    return p[0] * x + p[1] * jnp.sin(3 * t + p[2]) + p[3] * jnp.tanh(p[4] * x + t)


NORMAL = lambda *shape: lambda rng: rng.normal(size=shape)


def processes(T):
    return {'const': StationaryConstLinearSDE(a=-.6, b=1.1), 'lin': StationaryLinLinearSDE(beta_min=.1, beta_max=2., t0=0., T=T),
            'exp': StationaryExpLinearSDE(a=-.5, b=1., c=.7, z=1.)}


def losses(c):
    T = float(c.rng.uniform(.6, 2.))
    jobs = {}
    for nm, s in processes(T).items():
        for lt in ('score', 'ipf', 'ipf-score'):
            for rt in (True, False):
                for sv in ((True, False) if lt == 'score' else (False,)):
                    key, xs = c.key(), jnp.asarray(c.rng.normal(size=(4, 3)))
                    loss = make_linear_sde_law_loss(s, net, t0=0., T=T, nsteps=4, random_times=rt, loss_type=lt, save_mem=sv)
                    jobs[f'loss {nm} {lt} {rt} {sv}'] = (lambda p, loss=loss, key=key, xs=xs: loss(p, key, xs)), NORMAL(5)
    for rt in (True, False):
        key, xs = c.key(), jnp.asarray(c.rng.normal(size=(4, 3)))
        loss = make_ou_score_matching_loss(-.5, 1., net, 0., T, 4, rt)
        jobs[f'ou loss {rt}'] = (lambda p, loss=loss, key=key, xs=xs: loss(p, key, xs)), NORMAL(5)
    i, m = c.part
    smooth(c, dict(list(jobs.items())[i::m]))


def bridge_losses(c):
    jobs = {}
    for r in range(3 if not c.thorough else 10):
        K = int(c.rng.integers(3, 7))
        ts = jnp.asarray(np.cumsum(c.rng.uniform(.05, .3, K + 1)))
        ts = ts if r % 2 else ts[::-1]
        key, xs, q = c.key(), jnp.asarray(c.rng.normal(size=(4, 2))), jnp.asarray(c.rng.normal(size=5))
        g = lambda t: 1. + .3 * jnp.sin(t)
        jobs[f'ipf disc {r}'] = (lambda p, key=key, xs=xs, q=q, ts=ts: ipf_loss_disc(p, q, xs, ts, jnp.abs(jnp.diff(ts)), net, net, key)), NORMAL(5)
        for nm, loss in (('cont', ipf_loss_cont), ('cont v', ipf_loss_cont_v)):
            jobs[f'ipf {nm} {r}'] = (lambda p, key=key, xs=xs, q=q, ts=ts, loss=loss: loss(key, p, q, xs, ts, net, net, g)), NORMAL(5)
    smooth(c, jobs)


def paths(c):
    jobs = {}
    T = 1.3
    K = 5
    ts = jnp.asarray(np.concatenate([[0.], np.cumsum(c.rng.uniform(.5, 1.5, K))]))
    ts = ts / ts[-1] * T
    for nm, s in processes(T).items():
        sim = make_linear_sde(s)[2]
        for keep in (True, False):
            jobs[f'simulate {nm} {keep}'] = (lambda x, sim=sim, key=c.key(), keep=keep: sim(key, x, ts, keep_path=keep)), NORMAL(3, 2)
        for path in (True, False):
            jobs[f'euler {nm} {path}'] = (lambda x, s=s, key=c.key(), path=path: euler_maruyama(key, x, ts, lambda z, t: s.drift(jnp.tanh(z), t), s.dispersion, 3, path)), NORMAL(2, 2)
        jobs[f'reverse {nm}'] = (lambda x, s=s, key=c.key(): reverse_simulator(key, x, ts, lambda z, t: -jnp.tanh(z) * (1 + t), s.drift, s.dispersion, 2)), NORMAL(2, 2)
        if nm != 'exp':
            jobs[f'bridge start and end {nm}'] = (lambda x, s=s, key=c.key(): doob_bridge_simulator(key, s, x[0], x[1], ts, 3)), NORMAL(2, 2)
            jobs[f'bridge drift {nm}'] = (lambda x, s=s: s.bridge_drift(x[:2], x[4] ** 2 / (1 + x[4] ** 2), x[2:4], T)), NORMAL(5)
            jobs[f'mean and variance {nm}'] = (lambda x, s=s: (s.mean(.2 + x[0] ** 2, x[1] / 9, x[2:]), s.variance(.2 + x[0] ** 2, x[1] / 9))), NORMAL(4)
        score, disc = make_linear_sde(s)[1], make_linear_sde(s)[0]
        jobs[f'discretisation {nm}'] = (lambda x, disc=disc: disc(.1 + x[0] ** 2, -.1 * jnp.cos(x[1]) ** 2 + .1)), NORMAL(2)
        jobs[f'score {nm}'] = (lambda x, score=score: score(x[:2], .2 + x[4] ** 2, x[2:4], .05)), NORMAL(5)
    _, oscore, osim = make_ou_sde(-.5, 1.)
    for keep in (True, False):
        jobs[f'ou {keep}'] = (lambda x, key=c.key(), keep=keep: osim(key, x, ts, keep)), NORMAL(2)
    jobs['ou score'] = (lambda x: oscore(x[:2], .2 + x[4] ** 2, x[2:4])), NORMAL(5)
    jobs['discrete'] = (lambda x, key=c.key(): discrete_time_simulator(key, x, ts, lambda z, t, s: jnp.tanh(z) * .9 + t * z, lambda t, s: jnp.sqrt(t - s))), NORMAL(2, 2)
    i, m = c.part
    smooth(c, dict(list(jobs.items())[i::m]), reps=2)


def gaussians(c):
    d = 2
    A = [jnp.asarray(c.rng.normal(size=(d, d))) for _ in range(2)]
    spd = lambda x, a: (a + x.reshape(d, d)) @ (a + x.reshape(d, d)).T + .5 * jnp.eye(d)
    pair = lambda x: (x[:2], spd(x[4:8] / 5, A[0]), x[2:4], spd(x[8:] / 5, A[1]))
    jobs = {'bures distance': (lambda x: bures_dist(*pair(x)), NORMAL(12)), 'divergence': (lambda x: kl(*pair(x)), NORMAL(12))}

    def bridge(x):
        mean, cov, drift = make_gaussian_bw_sb(*pair(x[:12]), sig=1.3)
        t = .1 + .8 * jax.nn.sigmoid(x[12])
        return mean(t), cov(t), drift(x[13:], t)

    jobs['Gaussian bridge'] = bridge, NORMAL(15)
    m = Crescent(psi=.8, xi=1.2)
    jobs['crescent'] = (lambda x: (m.log_prior_pdf(x[:2]), m.log_cond_pdf_likelihood(x[2], x[:2]), m.score(x))), NORMAL(3)
    smooth(c, jobs, reps=4)


NETS = {
    'gmsb': (lambda: GMSBMLP(dim=2, dt=.1), (2,)), 'crescent': (lambda: CrescentMLP(dt=.1), (3,)),
    'unet-shuffle': (lambda: UNet(dt=.05, dim=8, upsampling='pixel_shuffle', dim_mults=(1, 2), dtype=jnp.float64), (4, 8, 1)),
    'unet-resize': (lambda: UNet(dt=.05, dim=8, upsampling='resize', dim_mults=(1, 2), dtype=jnp.float64), (4, 4, 2)),
    'resconv-ps': (lambda: MNISTResConv(dt=.1), (784,)),
    'resconv-resize': (lambda: MNISTResConv(dt=.1, decoder='resize'), (784,))}


def networks(c):
    i, m = c.part
    for nm in list(NETS)[i::m]:
        make, d = NETS[nm]
        net, own = make(), nm not in ('gmsb', 'crescent')   # (own: parameters in double precision, and for some a time shared by the batch)
        t = jnp.asarray(c.rng.uniform(.2, 1.5, 3))
        t = t[0] if nm.startswith('resconv') else t
        if own:
            tree = jax.tree_util.tree_map(lambda z: jnp.asarray(z, jnp.float64), jax.jit(net.init)(c.key(), jnp.ones((3, *d)), t))
            p, to_dict = jax.flatten_util.ravel_pytree(tree)
            fwd = lambda x, t, p: net.apply(to_dict(p), x, t)
        else:
            p, to_dict, fwd = make_st_nn(c.key(), net, d, 3)
        p = jnp.asarray(np.asarray(p) + .05 * c.rng.normal(size=p.shape))
        x = jnp.asarray(c.rng.normal(size=(3, *d)))
        n = p.size
        where = jax.tree_util.tree_leaves_with_path(to_dict(jnp.arange(n, dtype=p.dtype)))
        s = Slope(lambda z: fwd(z[n:].reshape(x.shape), t, z[:n]), *((1e-2, 2e-2, 5e-2, False) if nm.startswith('unet') else ()))   # (normalisation layers reduce in single precision)
        at = jnp.concatenate([p, x.ravel()])
        groups = [(jax.tree_util.keystr(k), np.asarray(v).astype(int).ravel()) for k, v in where] + [('input', n + np.arange(x.size))]
        ok = 0
        for g, inds in groups:
            v = np.zeros(at.size)
            v[inds] = c.rng.normal(size=len(inds))
            v /= np.linalg.norm(v)
            c.case('parameters', {'network': nm, 'group': g})
            ok += s.judge(c, nm, at, jnp.asarray(v), group=g)
        c.ev('parameter_groups', ok)
        if ok < .7 * len(groups):
            raise RuntimeError(f'{nm}: derivatives observed for {ok} of {len(groups)} groups of parameters')


run_sections(
    Check('C31', 'Losses, networks, simulators and Gaussian formulas x points x directions; oracle: difference quotients of the same call in double precision; '
          'non-trivial = distinct call and point', ['a direction along which the quotients of two step sizes differ (a kink) is not judged and counted']),
    [*parts(losses, 4), bridge_losses, *parts(paths, 3), gaussians, *parts(networks, len(NETS))], directions=1000, parameter_groups=100)
