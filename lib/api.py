"""The public sampling API as a catalogue of small executions `key -> pytree`, shared by the cross-cutting checks.

Every entry is a closure over randomly drawn inputs; the only source of randomness it is given is `key`.
"""
import numpy as np
import jax
import jax.numpy as jnp
from fbs.samplers import bootstrap_filter, pmcmc_kernel, twisted_smc, gibbs_init, gibbs_kernel, stratified, systematic, multinomial, killing
from fbs.samplers.smc import bootstrap_backward_smoother, pmcmc_filter_step, pcn_proposal
from fbs.samplers.gibbs import force_move, bridge_sampler
from fbs.samplers.csmc.csmc import csmc_kernel, forward_pass, backward_sampling_pass, backward_scanning_pass, barker_move
import fbs.samplers.csmc.resamplings as cond
from fbs.sdes import make_linear_sde, make_linear_sde_law_loss, StationaryConstLinearSDE, StationaryLinLinearSDE, StationaryExpLinearSDE
from fbs.sdes.linear import make_ou_sde, make_ou_score_matching_loss
from fbs.sdes.simulators import euler_maruyama, reverse_simulator, discrete_time_simulator, doob_bridge_simulator
from fbs.dsb.base import ipf_loss_disc, ipf_loss_cont, ipf_loss_cont_v
from fbs.data.bayesian import Crescent
from fbs.data.base import Dataset
from fbs.data.images import Image, ImageRestore


def draw_data(rng, K=4, n=6, d=2):
    """The array inputs of the catalogue."""
    f32 = lambda x: jnp.asarray(x, jnp.float32)
    ts = f32(np.concatenate([[0.], np.cumsum(rng.uniform(.1, .4, K))]))
    return dict(ts=ts, T=ts[-1], vs=f32(rng.normal(size=(K + 1, d))), us=f32(rng.normal(size=(K + 1, d))), bs=jnp.asarray(rng.integers(0, n, K + 1)),
                w=f32(rng.dirichlet(np.ones(n))), uss=f32(rng.normal(size=(K + 1, n, d))), lws=jax.nn.log_softmax(f32(rng.normal(size=(K + 1, n)))),
                a=f32(rng.uniform(.3, .9)), p=f32([-.7, .2]), x0s=f32(rng.normal(size=(5, d))))


def catalogue(rng, K=4, n=6, d=2, scale=1., offset=0., data=None):
    """`scale` multiplies and `offset` shifts the log-likelihoods (stress). `data` (see `draw_data`) may be traced."""
    f32 = lambda x: jnp.asarray(x, jnp.float32)
    if data is None:
        data = draw_data(rng, K, n, d)
        data['T'], data['a'] = float(data['T']), float(data['a'])
    ts, T, vs, us, bs, w, uss, lws, a, p, x0s = [data[k] for k in ('ts', 'T', 'vs', 'us', 'bs', 'w', 'uss', 'lws', 'a', 'p', 'x0s')]

    def trans(u, v, t, key, **kw):
        return a * u + .1 * v + .5 * jnp.sqrt(1 + t) * jax.random.normal(key, u.shape)

    def tlog(u, up, v, t, **kw):
        return scale * jnp.sum(jax.scipy.stats.norm.logpdf(u, a * up + .1 * v, .5 * jnp.sqrt(1 + t)), -1) + offset

    def lik(v, u, vp, t, **kw):
        return scale * jnp.sum(jax.scipy.stats.norm.logpdf(v, .7 * u + .2 * vp, 1. + t), -1) + offset

    init = lambda key, m: jax.random.normal(key, (m, d))
    initv = lambda key, v0, m: .3 * v0 + jax.random.normal(key, (m, d))
    zlik = lambda v0, u, v1, **kw: jnp.sum(u, -1) * .1
    sdes = {'const': StationaryConstLinearSDE(a=-.6, b=1.), 'lin': StationaryLinLinearSDE(beta_min=.1, beta_max=2., t0=0., T=T)}
    sde = sdes['lin']
    exp_sde = StationaryExpLinearSDE(a=-.5, b=1., c=.7, z=1.)
    _, _, sim = make_linear_sde(sde)
    fwd_y = lambda key, y0: sim(key, y0, ts)
    fwd_xy = lambda key, x0, y0, **kw: sim(key, jnp.concatenate([x0, y0], -1), ts)
    unpack = lambda xy, **kw: (xy[..., :d], xy[..., d:])
    nn = lambda x, t, p: p[0] * x + p[1] * jnp.reshape(t, (-1, *(1,) * (x.ndim - 1))) if jnp.ndim(t) else p[0] * x + p[1] * t
    crescent = Crescent()
    ds = Dataset.__new__(type('DS', (Dataset,), {}))
    ds.n, ds.xs = 23, f32(np.arange(46).reshape(23, 2))
    img = Image.__new__(type('Im', (Image,), {}))
    img.n, img.xs, img.image_shape = 7, f32(rng.uniform(size=(7, 16, 16, 2))), (16, 16, 2)
    rest = {t: ImageRestore(t, (12, 12, 1)) for t in ('inpaint-5', 'supr-3', 'supr-2')}
    for r in rest.values():
        r.n, r.xs = 5, f32(rng.uniform(size=(5, 12, 12, 1)))

    def with_task(task):   # (an own instance for each task: methods are compiled per instance)
        im = Image.__new__(type('Im', (Image,), {}))
        im.n, im.xs, im.image_shape, im.task = img.n, img.xs, img.image_shape, task
        return im

    corrupt = lambda task: with_task(task).sampler
    epoch = lambda task: (lambda im: lambda key: im.enumerate_subset(0, [jnp.array([3, 1, 0])], key))(with_task(task))

    C = {}
    for nm, r in (('stratified', stratified), ('systematic', systematic), ('multinomial', multinomial), ('killing', killing)):
        C[f'resampling {nm}'] = lambda key, r=r: r(w, key)
        C[f'filter {nm}'] = lambda key, r=r: bootstrap_filter(trans, lik, vs, ts, initv, key, n, r, True, False)
        C[f'pmcmc filter {nm}'] = lambda key, r=r: pmcmc_filter_step(key, vs, us[:1] + jnp.arange(n)[:, None], ts, trans, lik, r, n)
        C[f'twisted {nm}'] = lambda key, r=r: twisted_smc(
            key, vs[0], ts, init, lambda x, xp, t: tlog(x, xp, vs[0], t), lambda y, x, t: lik(y, x, y, t),
            lambda key, x, t, y: trans(x, y, t, key), lambda x, xp, t, y: tlog(x, xp, y, t) / max(scale, 1.), r, n)
        for delta in (None, .3):
            C[f'pmcmc {nm} {delta}'] = lambda key, r=r, delta=delta: pmcmc_kernel(
                key, us[0], -3. + 0 * us[0, 0], vs, vs[0], ts, fwd_y, sde, initv, trans, lik, r, n, delta=delta, which_u=1)
    for nm in ('multinomial', 'killing'):
        r = getattr(cond, nm)
        for c in (True, False):
            C[f'conditional {nm} {c}'] = lambda key, r=r, c=c: r(key, w, 2, 1, c)
        for b in (True, False):
            C[f'csmc {nm} {b}'] = lambda key, r=r, b=b: csmc_kernel(key, us, bs, vs, ts, init, zlik, trans, tlog, lik, r, n, backward=b)
    C['conditional systematic False'] = lambda key: cond.systematic(key, w, conditional=False)
    C['force move'] = lambda key: force_move(key, w, 2)
    C['barker'] = lambda key: barker_move(key, w)
    C['smoother'] = lambda key: bootstrap_backward_smoother(key, uss, vs, ts, tlog, measurement_cond_logpdf=lik)
    C['backward sampling'] = lambda key: backward_sampling_pass(key, tlog, vs, ts, uss, lws, measurement_cond_logpdf=lik)
    for m in ('filter', 'smoother', 'debug'):
        for marg in (True, False):
            C[f'gibbs init {m} {marg}'] = lambda key, m=m, marg=marg: gibbs_init(
                key, vs[0], (d,), ts, fwd_xy, sde, unpack, trans, tlog, lik, n, method=m, marg_y=marg)
    for eb in (True, False):
        for ef in (True, False):
            for marg in (False, True):
                C[f'gibbs {eb} {ef} {marg}'] = lambda key, eb=eb, ef=ef, marg=marg: gibbs_kernel(
                    key, us[-1], vs[0], us, bs, ts, fwd_xy, sde, unpack, n + 1 if ef is None else n, trans, tlog, lik,
                    marg_y=marg, explicit_backward=eb, explicit_final=ef)
    C['pcn'] = lambda key: pcn_proposal(key, .4, vs, vs * 0, lambda k: fwd_y(k, vs[0]))
    C['bridge'] = lambda key: bridge_sampler(key, vs[0], vs[-1], ts, sde)
    for nm, s in sdes.items():
        C[f'doob {nm}'] = lambda key, s=s: doob_bridge_simulator(key, s, vs[0], vs[1], ts, 3)
    for nm, s in (*sdes.items(), ('exp', exp_sde)):
        sm = make_linear_sde(s)[2]
        C[f'simulate {nm} path'] = lambda key, sm=sm: sm(key, x0s, ts)
        C[f'simulate {nm} marginal'] = lambda key, sm=sm: sm(key, x0s, ts, keep_path=False)
        C[f'euler {nm}'] = lambda key, s=s: euler_maruyama(key, x0s, ts, s.drift, s.dispersion, 3, True)
        C[f'reverse {nm}'] = lambda key, s=s: reverse_simulator(key, x0s, ts, lambda x, t: -x, s.drift, s.dispersion, 2)
        for lt, rt, sv in (('score', True, False), ('ipf', True, False), ('ipf-score', True, False), ('score', False, False),
                           ('score', True, True), ('score', False, True)):
            C[f'loss {nm} {lt} {rt} {sv}'] = lambda key, s=s, lt=lt, rt=rt, sv=sv: make_linear_sde_law_loss(
                s, nn, t0=0., T=T, nsteps=4, random_times=rt, loss_type=lt, save_mem=sv)(p, key, x0s)
    _, _, osim = make_ou_sde(-.5, 1.)
    C['ou path'] = lambda key: osim(key, vs[0], ts)
    C['ou marginal'] = lambda key: osim(key, vs[0], ts, False)
    for rt in (True, False):
        C[f'ou loss {rt}'] = lambda key, rt=rt: make_ou_score_matching_loss(-.5, 1., nn, 0., T, 4, rt)(p, key, x0s)
    C['discrete'] = lambda key: discrete_time_simulator(key, x0s, ts, lambda x, t, s: x * .9, lambda t, s: jnp.sqrt(t - s))
    C['ipf disc'] = lambda key: ipf_loss_disc(p, p * 2, x0s, ts, jnp.diff(ts), nn, nn, key)
    C['ipf cont'] = lambda key: ipf_loss_cont(key, p, p * 2, x0s, ts, nn, nn, lambda t: 1. + t)
    C['ipf cont v'] = lambda key: ipf_loss_cont_v(key, p, p * 2, x0s, ts, nn, nn, lambda t: 1. + t)
    C['crescent'] = lambda key: crescent.sampler(key, 7)
    C['subset'] = lambda key: ds.draw_subset(key, 5)
    C['enumeration'] = lambda key: Dataset.init_enumeration(ds, key, 6)
    for t in ('supr-4', 'deconv-7', 'inpaint-5'):
        C[f'corrupted {t}'] = corrupt(t)
        C[f'batch {t}'] = epoch(t)
    for t, r in rest.items():
        C[f'restore {t}'] = lambda key, r=r: r.sampler(key)
    return C


# executions that draw nothing / are not traceable by jit
NOT_JITTABLE = ()
STATEFUL = ('enumeration',)   # stores its permutation on the object as well
