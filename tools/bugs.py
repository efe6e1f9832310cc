"""Planted bugs: definitions. `python tools/bugs.py write [ids]` writes /verif/seeded/<id>/; `python tools/bugs.py check [ids]` confirms each of
them in a scratch copy under /tmp (patch applies, demonstration 0 / non-zero, repository tests pass, checks that catch it)."""
import json, os, subprocess, sys, difflib, shutil
from concurrent.futures import ThreadPoolExecutor

V = '/verif'
HEAD = '''import os, sys
sys.path.insert(0, os.getcwd())
import numpy as np
import jax
{x64}import jax.numpy as jnp
import math
'''
B = {}


def bug(id, prop, file, edits, needs, breaks, demo, x64=False):
    B[id] = dict(prop=prop, file=file, edits=edits if isinstance(edits, list) else [edits], needs=needs, breaks=breaks,
                 demo=HEAD.format(x64="jax.config.update('jax_enable_x64', True)\n" if x64 else '') + demo)


SMC, CS, CR, R, GI = ('fbs/samplers/smc.py', 'fbs/samplers/csmc/csmc.py', 'fbs/samplers/csmc/resamplings.py', 'fbs/samplers/resampling.py',
                      'fbs/samplers/gibbs.py')
LI, SI, DS, UT, IM, BY = ('fbs/sdes/linear.py', 'fbs/sdes/simulators.py', 'fbs/dsb/base.py', 'fbs/utils.py', 'fbs/data/images.py',
                          'fbs/data/bayesian.py')

bug('B01', 'C01', R, ('                    jax.random.choice(key_2, N, (N,), p=weights))', '                    jax.random.choice(key_1, N, (N,), p=weights))'),
    'the joint law of which slots are killed and what replaces them',
    'killing resampling reuses the key of the killing decisions for the replacements, so that the offspring law is biased',
    '''
from fbs.samplers.resampling import killing
w = jnp.asarray([.5, .3, .2])
idx = jax.vmap(lambda k: killing(w, k))(jax.random.split(jax.random.PRNGKey(0), 400_000))
counts = np.stack([(np.asarray(idx) == i).sum(1) for i in range(3)]).mean(1)
err = np.abs(counts - 3 * np.asarray(w)).max()
print(counts, err)
sys.exit(int(err > .02))
''')

bug('B02', 'C02', CR, ('    J_prob = J_prob.at[i].set(0.)\n', ''),
    'few particles (the error of the probabilities is of order 1 / N) and a reference that does not have the largest weight',
    'conditional killing draws the slot of the pinned ancestor with wrong probabilities, so that the other ancestors do not follow the conditional law',
    '''
from fbs.samplers.csmc.resamplings import killing
w = jnp.asarray([.6, .3, .1])
# law of the slot next to the pinned one, given that a uniformly chosen slot holds particle 2
u = np.asarray(jax.jit(jax.vmap(lambda k: killing(k, w, conditional=False)))(jax.random.split(jax.random.PRNGKey(0), 1_000_000)))
nxt = np.concatenate([np.roll(u, -s, 1)[u[:, s] == 2][:, 1] for s in range(3)])
want = np.bincount(nxt, minlength=3) / len(nxt)
c = np.asarray(jax.jit(jax.vmap(lambda k: killing(k, w, 2, 1)))(jax.random.split(jax.random.PRNGKey(1), 400_000)))
assert (c[:, 1] == 2).all()
got = np.bincount(c[:, 2], minlength=3) / len(c)
print(got, want)
sys.exit(int(np.abs(got - want).max() > .01))
''')

bug('B03', 'C03', GI, ('    threshold = jnp.maximum(1 - jnp.exp(-M), 1 - 1e-12)', '    threshold = jnp.minimum(1 - jnp.exp(-M), 1 - 1e-12)'),
    'a reference particle that carries nearly all of the weight',
    'the forced move proposes uniformly instead of from the remaining weights when the reference weight is dominant',
    '''
from fbs.samplers.gibbs import force_move
w = jnp.asarray([.975, .02, .005])
i = np.asarray(jax.jit(jax.vmap(lambda k: force_move(k, w, 0)[0]))(jax.random.split(jax.random.PRNGKey(0), 400_000)))
got = np.bincount(i, minlength=3) / len(i)
want = np.array([0, .8 * min(1, .025 / .98), .2 * min(1, .025 / .995)])
want[0] = 1 - want.sum()
print(got, want)
sys.exit(int(np.abs(got - want).max() > 2e-3))
''')

bug('B04', 'C04', SMC, ('                                                              (vs[1:], vs[:-1], ts[:-1], keys))\n    if return_last:',
                        '                                                              (vs[1:], vs[:-1], ts[1:], keys))\n    if return_last:'),
    'a model whose transition or measurement depends on time',
    'the bootstrap filter evaluates the model at the end rather than the start of each step',
    '''
from fbs.samplers.smc import bootstrap_filter
from fbs.samplers.resampling import stratified
ts = jnp.asarray([0., .5, 2., 3.])
us, nell = bootstrap_filter(lambda u, v, t, k, **kw: u + t, lambda v, u, vp, t, **kw: jnp.zeros(u.shape[0]), jnp.zeros((4, 1)), ts,
                            lambda k, v, n: jnp.zeros((n, 1)), jax.random.PRNGKey(0), 5, stratified)
print(us.ravel())
sys.exit(int(not np.allclose(us, 2.5)))
''')

bug('B05', 'C05', SMC, ('        inds = resampling(jnp.exp(log_weights), key_resampling)\n\n        _, subkey_',
                        '        ess = 1. / jnp.sum(jnp.exp(2 * log_weights))\n        inds = jnp.where(ess < 0.98 * nparticles, resampling(jnp.exp(log_weights), key_resampling),\n                         jnp.arange(nparticles))\n\n        _, subkey_'),
    'weights that are nearly but not exactly uniform, repeatedly',
    'the filter skips the resampling when the effective sample size is high but drops the weights, which biases particles and likelihood',
    '''
from fbs.samplers.smc import bootstrap_filter
from fbs.samplers.resampling import stratified
# u stays where it is; each of the 10 measurements slightly prefers u = 1 (effective sample size always above 98 %)
g = jnp.log(jnp.asarray([1., 1.3]))
def f(k):
    us, nell = bootstrap_filter(lambda u, v, t, k, **kw: u, lambda v, u, vp, t, **kw: g[u], jnp.zeros((11, 1)), jnp.arange(11.),
                                lambda k, v, n: jax.random.bernoulli(k, .5, (n,)).astype(int), k, 2000, stratified)
    return jnp.mean(us), nell
m, nell = jax.vmap(f)(jax.random.split(jax.random.PRNGKey(0), 50))
want = 1.3 ** 10 / (1 + 1.3 ** 10)
print(m.mean(), want, jnp.mean(jnp.exp(-nell)), .5 * (1 + 1.3 ** 10))
sys.exit(int(abs(float(m.mean()) - want) > .02))
''')

bug('B06', 'C06', SMC, ('        u_k = jax.random.choice(key_, uf_k, axis=0, p=jnp.exp(log_ws))', '        u_k = jax.random.choice(key_, uf_k, axis=0, p=jnp.exp(log_ws) + 1e-5)'),
    'particles from which the next state cannot (or hardly) be reached',
    'the backward smoother gives every particle a minimal probability, also those that cannot lead to the next state',
    '''
from fbs.samplers.smc import bootstrap_backward_smoother
us = jnp.tile(jnp.arange(50.)[None, :, None], (3, 1, 1))
def tl(u, up, v, t): return jnp.where(jnp.abs(up[:, 0] - u[0]) < .5, 0., -jnp.inf)
tr = np.asarray(jax.vmap(lambda k: bootstrap_backward_smoother(k, us, jnp.zeros((3, 1)), jnp.arange(3.), tl))(jax.random.split(jax.random.PRNGKey(0), 20000)))
bad = (tr.max(1) != tr.min(1)).mean()
print(bad)
sys.exit(int(bad > 0))
''')

bug('B07', 'C07', CS, ('    inputs = (vs[1:], vs[:-1], ts[:-1], bs_star[:-1], bs_star[1:], keys, us_star[1:])', '    inputs = (vs[1:], vs[:-1], ts[1:], bs_star[:-1], bs_star[1:], keys, us_star[1:])'),
    'a model whose transition or measurement depends on time (the backward pass uses the right times)',
    'the forward pass of the conditional SMC evaluates the model at the end of each step',
    '''
from fbs.samplers.csmc.csmc import forward_pass
from fbs.samplers.csmc.resamplings import killing
ts = jnp.asarray([0., 1., 3.])
As, lw, us = forward_pass(jax.random.PRNGKey(0), 100. * jnp.ones((3, 1)), jnp.zeros(3, int), jnp.zeros((3, 1)), ts, lambda k, n: jnp.zeros((n, 1)),
                          lambda v, u, v1: jnp.where(u[:, 0] == 100., -jnp.inf, 0.), lambda u, v, t, k: jnp.zeros_like(u) + t, lambda v, u, vp, t: jnp.zeros(u.shape[0]), killing, 4)
print(us[:, 1:, 0])
sys.exit(int(not np.allclose(us[:, 1:, 0], np.array([0., 0., 1.])[:, None])))
''')

bug('B08', 'C08', GI, ('        idx, _ = force_move(key_csmc_x0, jnp.exp(log_ws[-1]), bs_star[-1])', '        idx, _ = force_move(key_csmc_x0, jnp.exp(log_ws[-1]), bs_star[0])'),
    'reference indices that differ between the first and the last time (as produced by the kernel itself)',
    'the Gibbs kernel selects the new sample by a forced move from the wrong particle, which breaks the invariance',
    '''
from fbs.samplers.gibbs import gibbs_kernel
# last step of the system: the reference (particle 2) and particle 3 have all the weight; the forced move must leave the reference
ts = jnp.asarray([0., 1., 2.])
fwd = lambda key, x0, y0, **kw: jnp.stack([jnp.stack([x0 + i, y0 + i]) for i in range(3)])
bs = jnp.asarray([3, 1, 2])
out = jax.jit(jax.vmap(lambda k: gibbs_kernel(
    k, jnp.asarray(5.), jnp.asarray(1.), jnp.zeros((3,)), bs, ts, fwd, None, lambda xy, **kw: (xy[:, 0], xy[:, 1]), 4,
    lambda u, v, t, k, **kw: -jnp.arange(4.), None,
    lambda v, u, vp, t, **kw: jnp.where(jnp.arange(4) == 2, 0., jnp.where(jnp.arange(4) == 3, -.01, -60.)))[0]))(jax.random.split(jax.random.PRNGKey(0), 300))
# particle 2 is the reference (weight about a half, state 5); particle 3 the only other one with weight: it must be taken nearly always
frac = np.mean(np.isclose(np.asarray(out), 5.))
print(frac)
sys.exit(int(frac > .2))
''')

bug('B09', 'C09', SMC, ('                        lambda _: (uT, log_ell, ys, mcmc_state),', '                        lambda _: (uT, log_ell, prop_ys, mcmc_state),'),
    'rejected proposals followed by preconditioned Crank-Nicolson proposals (independent proposals ignore the path)',
    'the particle MCMC kernel keeps the rejected path, so that the path no longer belongs to the sample and its likelihood',
    '''
from fbs.samplers.smc import pmcmc_kernel
from fbs.samplers.resampling import stratified
ts = jnp.arange(3.)
ys0 = 7. * jnp.ones((3, 1))
def run(k):
    return pmcmc_kernel(k, jnp.zeros(1), jnp.asarray(1e6), ys0, jnp.zeros(1), ts, lambda k, y: jax.random.normal(k, (3, 1)), None,
                        lambda k, v, n: jnp.zeros((n, 1)), lambda u, v, t, k, **kw: u, lambda v, u, vp, t, **kw: jnp.zeros(u.shape[0]), stratified, 4)
u, l, ys, st = run(jax.random.PRNGKey(0))
assert not st.is_accepted
print(ys.ravel())
sys.exit(int(not np.allclose(ys, ys0)))
''')

bug('B10', 'C10', SMC, ('        log_ps = twisting_logpdf(y, xs, t_prev, **kwargs)\n', '        log_ps = twisting_logpdf(y, xs_prev, t_prev, **kwargs)\n'),
    'a twisting function that changes quickly between consecutive states',
    'the twisted SMC twists with the states before the move, so that the final weights target something else',
    '''
from fbs.samplers.smc import twisted_smc
from fbs.samplers.resampling import stratified
tw = lambda y, x, t, **kw: -.5 * (y - x[:, 0]) ** 2 / jnp.where(t > 1.5, .1, 8.)
n01 = lambda x: -.5 * jnp.sum(x ** 2, -1) - .5 * math.log(2 * math.pi)
xs, lw = twisted_smc(jax.random.PRNGKey(0), jnp.asarray(1.), jnp.arange(3.), lambda k, n: jax.random.normal(k, (n, 1)),
                     lambda x, xp, t: n01(x - .9 * xp), tw, lambda k, x, t, y, **kw: .9 * x + jax.random.normal(k, x.shape),
                     lambda x, xp, t, y, **kw: n01(x - .9 * xp), stratified, 200_000)
m = float(jnp.sum(jnp.exp(lw) * xs[:, 0]))
P = .81 * (.81 + 1) + 1
want = P / (P + .1)
print(m, want)
sys.exit(int(abs(m - want) > .03))
''')

bug('B11', 'C11', LI, ('            r = a * (jnp.exp(c * (t - z)) - jnp.exp(c * (s - z))) / c', '            r = a * (jnp.exp(c * (t - z - s)) - jnp.exp(-c * z)) / c'),
    'the exponential SDE between two times of which the first is not 0',
    'the discretisation of the exponential linear SDE depends on the length of the interval only',
    '''
from fbs.sdes import make_linear_sde
from fbs.sdes.linear import StationaryExpLinearSDE
sde = StationaryExpLinearSDE(a=-.5, b=1., c=1.3, z=.7)
d = make_linear_sde(sde)[0]
F1, Q1 = d(.8, .3)
F2, Q2 = d(1.5, .8)
F, Q = d(1.5, .3)
print(F, F1 * F2, Q, F2 ** 2 * Q1 + Q2)
sys.exit(int(not (np.allclose(F, F1 * F2, rtol=1e-4) and np.allclose(Q, F2 ** 2 * Q1 + Q2, rtol=1e-4))))
''')

bug('B12', 'C12', SI, ('            x = x + drift(x, t_) * ddt + dispersion(t_) * jnp.sqrt(ddt) * rnd', '            x = x + drift(x, t_) * ddt + dispersion(t) * jnp.sqrt(ddt) * rnd'),
    'several integration substeps with a dispersion that depends on time',
    'the dispersion is frozen at the start of the interval instead of following the substeps',
    '''
from fbs.sdes.simulators import euler_maruyama
x = np.asarray(jax.vmap(lambda k: euler_maruyama(k, jnp.zeros(()), jnp.asarray([0., 1.]), lambda x, t: 0. * x, lambda t: jnp.exp(t), integration_nsteps=50))(
    jax.random.split(jax.random.PRNGKey(0), 100_000)))
want = np.exp(2 * np.arange(50) / 50).sum() / 50
print(x.var(), want)
sys.exit(int(abs(x.var() - want) > .1))
''')

bug('B13', 'C13', LI, ('''        def log_h(a, b): return jnp.sum(jax.scipy.stats.norm.logpdf(a,
                                                                    self.mean(T, t, b),
                                                                    jnp.sqrt(self.variance(T, t))))

        score_h = jax.grad(log_h, argnums=1)(target, x)
        return self.drift(x, t) + self.dispersion(t) ** 2 * score_h


class StationaryExpLinearSDE''', '''        def log_h(a, b): return jnp.mean(jax.scipy.stats.norm.logpdf(a,
                                                                     self.mean(T, t, b),
                                                                     jnp.sqrt(self.variance(T, t))))

        score_h = jax.grad(log_h, argnums=1)(target, x)
        return self.drift(x, t) + self.dispersion(t) ** 2 * score_h


class StationaryExpLinearSDE'''),
    'a state with more than one component', "Doob's drift of the linear-beta SDE is divided by the dimension of the state, so that bridges miss their target",
    '''
from fbs.sdes.linear import StationaryLinLinearSDE
sde = StationaryLinLinearSDE(.02, 4., 0., 2.)
x, y = jnp.asarray([.3, -1., 2.]), jnp.asarray([1., .5, -.2])
a = sde.bridge_drift(x, .5, y, 2.)
b = jnp.stack([sde.bridge_drift(x[i], .5, y[i], 2.) for i in range(3)])
print(a, b)
sys.exit(int(not np.allclose(a, b, rtol=1e-4)))
''')

bug('B14', 'C14', LI, ("            ts = jnp.hstack([jnp.sort(jax.random.uniform(key_ts, (nsamples - 1,), minval=t0 + eps, maxval=T)),\n                             T])  # (n, )",
                       "            ts = t0 + eps + jnp.hstack([jnp.sort(jax.random.uniform(key_ts, (nsamples - 1,), minval=0., maxval=T)),\n                                        T])  # (n, )"),
    'an initial time that is not 0, with the memory-saving loss',
    'the random training times leave the interval [t0, T]',
    '''
from fbs.sdes.linear import StationaryConstLinearSDE, make_linear_sde_law_loss
seen = []
def net(x, t, p):
    seen.append(np.asarray(t))
    return p * x
loss = make_linear_sde_law_loss(StationaryConstLinearSDE(-.5, 1.), net, t0=.5, T=2., save_mem=True)
with jax.disable_jit():
    loss(jnp.ones(()), jax.random.PRNGKey(0), jnp.ones((64, 2)))
t = np.concatenate([np.ravel(z) for z in seen])
print(t.min(), t.max())
sys.exit(int(not (t.min() >= .5 - 1e-4 and t.max() <= 2. + 1e-4)))
''')

bug('B15', 'C15', LI, ('        return pt - qt.T - sig ** 2 * rho(t) * jnp.eye(d)', '        return pt - qt - sig ** 2 * rho(t) * jnp.eye(d)'),
    'covariances that do not commute', 'the drift of the Gaussian Schroedinger bridge is not that of its marginals when the covariances do not commute',
    '''
from fbs.sdes.linear import make_gaussian_bw_sb
S0 = jnp.asarray([[2., .7], [.7, .5]])
S1 = jnp.asarray([[.4, -.3], [-.3, 1.5]])
mean, cov, drift = make_gaussian_bw_sb(jnp.zeros(2), S0, jnp.ones(2), S1, 1.)
err = asym = 0.
for t in (.2, .5, .8):
    A = jax.jacfwd(lambda x: drift(x, t))(jnp.zeros(2))
    asym = max(asym, float(jnp.abs(A - A.T).max()))  # the optimal drift is a gradient
    dS = jax.jacfwd(cov)(t)
    err = max(err, float(jnp.abs(dS - (A @ cov(t) + cov(t) @ A.T + jnp.eye(2))).max()))
print(err, asym)
sys.exit(int(err > 1e-6 or asym > 1e-6))
''', x64=True)

bug('B16', 'C16', DS, ('''jax.vmap(fn, in_axes=[0, 0, 0])(trajs[1:],
                                                                                                        ts[:-1],''',
                       '''jax.vmap(fn, in_axes=[0, 0, 0])(trajs[1:],
                                                                                                        ts[1:],'''),
    'a simulator drift that depends on time',
    'the vectorised IPF loss evaluates the simulated drift at the next state at the wrong time',
    '''
from fbs.dsb.base import ipf_loss_cont, ipf_loss_cont_v
a = [f(jax.random.PRNGKey(1), jnp.ones(()), jnp.ones(()), jnp.ones((5, 2)), jnp.asarray([0., .3, 1., 1.2]), lambda x, t, p: p * x * t, lambda x, t, p: jnp.sin(5 * t) * x,
       lambda t: 1.) for f in (ipf_loss_cont, ipf_loss_cont_v)]
print(a)
sys.exit(int(not np.allclose(a[0], a[1], rtol=1e-4)))
''')

bug('B17', 'C17', IM, ('''        block_inds_ravelled = jnp.ravel_multi_index([block_inds[:, 0] + shifts[:, 0], block_inds[:, 1] + shifts[:, 1]],
                                                    (img_w, img_h), mode='clip')''',
                       '''        block_inds_ravelled = jnp.ravel_multi_index([block_inds[:, 0] + shifts[:, 0], block_inds[:, 1] + shifts[:, 1]],
                                                    (img_h, img_w), mode='clip')'''),
    'an image that is not square',
    'the observed pixels of the super-resolution mask are not one per block for non-square images, and observed and unobserved overlap',
    '''
from fbs.data.images import ImageRestore
ds = ImageRestore('supr-2', (8, 12, 1))
m = ds.gen_mask(jax.random.PRNGKey(0))
o = np.asarray(m.obs_inds_ravelled)
blocks = {(i // 12 // 2, i % 12 // 2) for i in o.tolist()}
print(len(blocks), len(o))
sys.exit(int(len(blocks) != 24))
''')

bug('B18', 'C18', IM, ('''        else:
            self.n = 29000
            self.xs = data[1000:]

        self.image_shape = (resolution, resolution, 3)''', '''        else:
            self.n = 29000
            self.xs = data[:29000]

        self.image_shape = (resolution, resolution, 3)'''),
    'comparing the training with the test set of CelebA-HQ', 'the training set contains the test images',
    '''
import tempfile
from fbs.data.images import CelebAHQ
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, 'x.npy')
    np.save(p, np.broadcast_to(np.arange(30000, dtype='float32')[:, None, None, None], (30000, 2, 2, 3)))
    key = jax.random.PRNGKey(3)
    tr = np.asarray(CelebAHQ(key, p, 2).xs)[:, 0, 0, 0]
    te = np.asarray(CelebAHQ(key, p, 2, test=True).xs)[:, 0, 0, 0]
both = np.intersect1d(tr, te)
print(len(both))
sys.exit(int(len(both) > 0))
''')

bug('B19', 'C19', 'fbs/nn/unet.py', ('            time_emb = jax.vmap(lambda z: sinusoidal_embedding(z, out_dim=self.dim))(time / self.dt)',
                                      '            time_emb = jax.vmap(lambda z: sinusoidal_embedding(z, out_dim=self.dim))(time)'),
    'one time per image (instead of a common time) and a time step other than 1',
    'the UNet does not scale the times by the time step when a vector of times is given',
    '''
from fbs.nn.unet import UNet
net = UNet(dt=.01, dim=8, dim_mults=(1, 2))
x = jax.random.normal(jax.random.PRNGKey(0), (2, 8, 8, 1))
p = net.init(jax.random.PRNGKey(1), x, jnp.ones(2))
f = jax.jit(net.apply)
a, b = f(p, x, jnp.asarray(.37)), f(p, x, jnp.asarray([.37, .37]))
e = float(jnp.abs(a - b).max())
print(e)
sys.exit(int(e > 1e-3))
''')

bug('B20', 'C20', 'fbs/nn/utils.py', ('        updates, opt_state = optimiser.update(grad, opt_state, param)\n        param = optax.apply_updates(param, updates)',
                                       '        updates, opt_state = optimiser.update(grad, opt_state, jax.lax.stop_gradient(param * 1e-8))\n        param = optax.apply_updates(param, updates)'),
    'an optimiser that uses the parameter (weight decay)', 'weight decay is lost because the optimiser is not given the parameter',
    '''
import optax
from fbs.nn.utils import make_optax_kernel
opt = optax.adamw(.1, weight_decay=.5)
f = lambda p, x: jnp.sum(jnp.sin(p * x))
k, _ = make_optax_kernel(opt, f)
p = jnp.asarray([1., -2., 3.])
q, _, l = k(p, opt.init(p), .3)
u, _ = opt.update(jax.grad(f)(p, .3), opt.init(p), p)
print(q, p + u)
sys.exit(int(not np.allclose(q, p + u, atol=1e-5)))
''')

bug('B21', 'C21', SI, ('    T = ts[-1]\n', '    T = float(ts[-1])\n'),
    'the times being an argument of the compiled function rather than a constant',
    'the reverse-time simulator cannot be compiled with the times as an argument',
    '''
from fbs.sdes.simulators import reverse_simulator
f = lambda k, ts: reverse_simulator(k, jnp.ones(2), ts, lambda x, t: -x, lambda x, t: -.5 * x, lambda t: 1.)
ts = jnp.linspace(0., 1., 5)
a = f(jax.random.PRNGKey(0), ts)
b = jax.jit(f)(jax.random.PRNGKey(0), ts)
sys.exit(int(not np.allclose(a, b, rtol=1e-4)))
''')

bug('B22', 'C22', UT, ('    A = cov0 + cov1 - 2 * sqrtm(sqrt @ cov1 @ sqrt)', '    A = cov0 + cov1 - 2 * sqrt @ sqrtm(cov1)'),
    'covariances that do not commute', 'the Bures distance is wrong for covariances that do not commute',
    '''
from fbs.utils import bures_dist
A = jnp.asarray([[2., .9], [.9, .5]])
C = jnp.asarray([[.4, -.3], [-.3, 1.5]])
import scipy.linalg as sl
r = sl.sqrtm(np.asarray(A))
want = np.trace(A) + np.trace(C) - 2 * np.trace(sl.sqrtm(r @ np.asarray(C) @ r)).real
got = bures_dist(jnp.zeros(2), A, jnp.zeros(2), C)
print(got, want)
sys.exit(int(abs(got - want) > 1e-6))
''', x64=True)

bug('B23', 'C23', BY, ('              + math.sqrt(self.xi) * jax.random.normal(subkey, (batch_size,)))', '              + self.xi * jax.random.normal(subkey, (batch_size,)))'),
    'a noise variance other than 1', 'the sampler of the Crescent model scales its noise by the variance',
    '''
from fbs.data import Crescent
c = Crescent(10, psi=1., xi=.25)
xs, ys = c.sampler(jax.random.PRNGKey(0), 200_000)
r = np.asarray(ys) - np.asarray(xs[:, 1] + .5 * (xs[:, 0] ** 2 + 1.))
print(r.var())
sys.exit(int(abs(r.var() - .25) > .01))
''')

bug('B24', 'C24', IM, ('            ys = jax.vmap(self.corrupt, in_axes=[0, 0])(keys, xs)', '            ys = jax.vmap(self.corrupt, in_axes=[None, 0])(keys[0], xs)'),
    'looking at several images of one corrupted batch', 'all the images of a batch are corrupted by the same random draw',
    '''
from fbs.data.images import Image
class D(Image):
    def __init__(self):
        self.n, self.task, self.image_shape = 64, 'inpaint-3', (12, 12, 1)
        self.xs = jnp.ones((64, 12, 12, 1))
d = D()
p = d.init_enumeration(jax.random.PRNGKey(0), 64)
x, y = d.enumerate_subset(0, p, jax.random.PRNGKey(1))
k = len({np.asarray(z).tobytes() for z in y})
print(k)
sys.exit(int(k < 2))
''')

bug('B25', 'C25', SMC, ('''        log_ws = likelihood_logpdf(v, us_prev, v_prev, t_prev, **kwargs)
        _c = jax.scipy.special.logsumexp(log_ws)''', '''        log_ws = likelihood_logpdf(v, us_prev, v_prev, t_prev, **kwargs)
        _c = jnp.log(jnp.sum(jnp.exp(log_ws)))'''),
    'log-likelihoods of large magnitude (high-dimensional measurements)', 'the likelihood of the particle MCMC filter under- or overflows',
    '''
from fbs.samplers.smc import pmcmc_filter_step
from fbs.samplers.resampling import stratified
u, l = pmcmc_filter_step(jax.random.PRNGKey(0), jnp.zeros((3, 1)), jnp.arange(4.)[:, None], jnp.arange(3.), lambda u, v, t, k, **kw: u,
                         lambda v, u, vp, t, **kw: -500. - u[:, 0], stratified, 4)
print(u.ravel(), l)
sys.exit(int(not np.isfinite(l)))
''')

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
try:
    import bugs2
    bugs2.define(bug)
    import bugs3
    bugs3.define(bug)
except ImportError:
    pass


def patched(b, root='/repo'):
    s = open(f"{root}/{b['file']}").read()
    t = s
    for old, new in b['edits']:
        assert t.count(old) == 1, (b['prop'], b['file'], t.count(old), old)
        t = t.replace(old, new)
    return s, t


def write(ids):
    for i in ids:
        b = B[i]
        s, t = patched(b)
        d = f'{V}/seeded/{i}'
        os.makedirs(d, exist_ok=True)
        p = ''.join(difflib.unified_diff(s.splitlines(True), t.splitlines(True), 'a/' + b['file'], 'b/' + b['file']))
        open(f'{d}/patch.diff', 'w').write(p)
        open(f'{d}/demo.py', 'w').write(b['demo'])
        open(f'{d}/demo.sh', 'w').write('#!/bin/bash\nexport JAX_PLATFORMS=cpu PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
        os.chmod(f'{d}/demo.sh', 0o755)
        json.dump({'property': b['prop'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(f'{d}/meta.json', 'w'), indent=1)


def one(i, what):
    b = B[i]
    scr = f'/tmp/scr_{i}'
    shutil.rmtree(scr, ignore_errors=True)
    shutil.copytree('/repo', scr, ignore=shutil.ignore_patterns('.git', '__pycache__', 'docs'))
    out = [i, b['prop']]
    env = {**os.environ, 'JAX_PLATFORMS': 'cpu', 'MPLBACKEND': 'Agg', 'PYTHONDONTWRITEBYTECODE': '1', 'PYTHONPATH': scr}
    try:
        demo = lambda: subprocess.run(['bash', f'{V}/seeded/{i}/demo.sh'], cwd=scr, env=env, capture_output=True, text=True)
        if 'demo' in what:
            a = demo()
            out.append(f'clean={a.returncode}')
        r = subprocess.run(['patch', '-p1', '-s', '-i', f'{V}/seeded/{i}/patch.diff'], cwd=scr, capture_output=True, text=True)
        assert r.returncode == 0, r.stdout
        if 'demo' in what:
            z = demo()
            out.append(f'patched={z.returncode}')
            if a.returncode or z.returncode != 1:
                out.append((a.stdout + a.stderr[-600:] + '|' + z.stdout + z.stderr[-600:]))
        if 'tests' in what:
            r = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', 'tests', '-q', '-p', 'no:cacheprovider', '--timeout=600', '-x'], cwd=scr, env=env, capture_output=True, text=True)
            out.append('tests: ' + r.stdout.strip().splitlines()[-1])
        if 'checks' in what:
            props = [b['prop']] + [w for w in what if w.startswith('C')]
            for p in props:
                r = subprocess.run([f'{V}/run', p], env={**env, 'VERIF_REPO': scr, 'VERIF_JOBS': '3'}, capture_output=True, text=True)
                out.append(f'{p}: rc {r.returncode} ' + ' | '.join(l[:160] for l in r.stdout.splitlines() if 'broken' in l)[:330])
    finally:
        shutil.rmtree(scr, ignore_errors=True)
    print(*out, sep='\n   ', flush=True)


if __name__ == '__main__':
    cmd, ids = sys.argv[1], [a for a in sys.argv[2:] if a in B] or list(B)
    if cmd == 'write':
        write(ids)
    else:
        with ThreadPoolExecutor(int(os.environ.get("BUG_WORKERS", 4))) as ex:
            list(ex.map(lambda i: one(i, cmd.split(',')), ids))
