"""Planted bugs, second round: faults that need an optional argument, a shape, a grid or a batch the tests do not use."""
SMC, CS, CR, R, GI = ('fbs/samplers/smc.py', 'fbs/samplers/csmc/csmc.py', 'fbs/samplers/csmc/resamplings.py', 'fbs/samplers/resampling.py',
                      'fbs/samplers/gibbs.py')
LI, SI, DS, UT, IM, BY = ('fbs/sdes/linear.py', 'fbs/sdes/simulators.py', 'fbs/dsb/base.py', 'fbs/utils.py', 'fbs/data/images.py',
                          'fbs/data/bayesian.py')


def define(bug):
    bug('B26', 'C24', CS, ('    B_T = barker_move(keys[-1], W_T)\n', '    B_T = barker_move(keys[0], W_T)\n'),
        'backward sampling; visible only in the joint law of the last two indices',
        'the last index and the one before are drawn with the same key, so that they are dependent beyond the model',
        '''
from fbs.samplers.csmc.csmc import csmc_kernel
from fbs.samplers.csmc.resamplings import killing
n, K = 7, 4
flat = lambda *a, **k: jnp.zeros(n)
run = lambda key: csmc_kernel(key, jnp.zeros((K + 1, 1)), jnp.zeros(K + 1, int), jnp.zeros((K + 1, 1)), jnp.arange(K + 1.), lambda k, m: jnp.zeros((n, 1)),
                              lambda v0, u, v1: jnp.zeros(n), lambda u, v, t, k: jax.random.normal(k, u.shape), flat, flat, killing, n - 1, backward=True)[1]
bs = np.asarray(jax.jit(jax.vmap(run))(jax.random.split(jax.random.PRNGKey(0), 5000)))
eq = (bs[:, 1:] == bs[:, :-1]).mean(0)
print(eq, 1 / n)
sys.exit(int(np.abs(eq - 1 / n).max() > .05))
''')

    bug('B27', 'C08', GI, ('csmc_kernel(key_csmc,\n                                                 us, bs_star,', 'csmc_kernel(key_csmc,\n                                                 us_star, bs_star,'),
        'the implicit backward mode; the first iterations and summary statistics look alike',
        'the conditional SMC is run around the previous trajectory instead of the freshly noised one that belongs to the measurements',
        '''
from fbs.samplers.gibbs import gibbs_kernel
ts = jnp.linspace(0., 1., 4)
fwd = lambda key, x0, y0: jnp.concatenate([x0 + ts[:, None], y0 + ts[:, None]], -1)
unpack = lambda xy: (xy[..., :1], xy[..., 1:])
ll = lambda v, u, vp, t: jnp.zeros(u.shape[0])
x0, us, bs, acc = gibbs_kernel(jax.random.PRNGKey(0), jnp.array([2.]), jnp.array([5.]), jnp.full((4, 1), 77.), jnp.zeros(4, int), ts, fwd, None, unpack, 1,
                               lambda u, v, t, k: u, lambda a, u, v, t: jnp.zeros(u.shape[0]), ll, explicit_backward=False)
print(us[:, 0])  # with one particle the kernel returns its reference, the noised path reversed
sys.exit(int(not np.allclose(us[:, 0], 2. + np.asarray(ts)[::-1])))
''')

    bug('B28', 'C10', SMC, ('        log_ps_prev = log_ps_prev[resampling_inds, ...]\n', ''),
        'twisting functions whose values differ between particles, i.e. not the optimal ones',
        'after resampling the weights are divided by the twisting values of other particles',
        '''
from fbs.samplers.smc import twisted_smc
from fbs.samplers.resampling import stratified
import jax.scipy.stats as st
# x_{k+1} = x_k + N(0, 1), two steps from N(0, 1); final twisting N(y | x, 1/4), intermediate twisting N(y | x, 9)
y, n = jnp.array(2.5), 2000
ts = jnp.array([0., 1., 2.])
tw = lambda y, x, t: st.norm.logpdf(y, x[:, 0], jnp.where(t < 1.5, 3., .5))
def run(key):
    xs, lw = twisted_smc(key, y, ts, lambda k, m: jax.random.normal(k, (m, 1)), lambda x, xp, t: st.norm.logpdf(x, xp, 1.)[:, 0], tw,
                         lambda k, x, t, y: x + 1.2 * jax.random.normal(k, x.shape), lambda x, xp, t, y: st.norm.logpdf(x, xp, 1.2)[:, 0], stratified, n)
    return jnp.exp(lw) @ xs[:, 0]
m = np.asarray(jax.jit(jax.vmap(run))(jax.random.split(jax.random.PRNGKey(0), 200)))
want = 2.5 * 3 / 3.25
print(m.mean(), want, m.std() / 200 ** .5)
sys.exit(int(abs(m.mean() - want) > .02))
''')

    bug('B29', 'C15', LI, ('(sqrt0 @ jnp.linalg.solve(sqrt0.T, D_sig.T).T', '(sqrt0 @ jnp.linalg.solve(sqrt0, D_sig)'),
        'covariances that do not commute; marginals and their transport are still right',
        'the control of the Gaussian Schroedinger bridge is not a gradient, hence not optimal',
        '''
from fbs.sdes import make_gaussian_bw_sb
c0, c1 = jnp.array([[1., .3], [.3, .5]]), jnp.array([[.6, -.5], [-.5, 2.]])
*_, drift = make_gaussian_bw_sb(jnp.zeros(2), c0, jnp.ones(2), c1, 1.)
J = np.asarray(jax.jacfwd(drift)(jnp.array([.2, -.4]), .3))
print(J)
sys.exit(int(abs(J[0, 1] - J[1, 0]) > 1e-4))
''')

    bug('B30', 'C16', DS, ('(parametric_drift(x_next, t_next, param) * dt - (fn(x, t, dt) - fn(x_next, t, dt))) ** 2)',
                           '(parametric_drift(x_next, t_next, param) * dt - (fn(x, t, dt) - fn(x_next, t_next, dt))) ** 2)'),
        'a simulated drift that depends on time',
        'the IPF target is evaluated at the wrong time in the sequential loss',
        '''
from fbs.dsb.base import ipf_loss_cont, ipf_loss_cont_v
args = (jax.random.PRNGKey(0), jnp.zeros(1), jnp.zeros(1), jax.random.normal(jax.random.PRNGKey(1), (50, 2)), jnp.array([0., .1, .4, 1.]),
        lambda x, t, p: x * t, lambda x, t, p: -3. * t * x + jnp.sin(5 * t), lambda t: 1.)
a, b = float(ipf_loss_cont(*args)), float(ipf_loss_cont_v(*args))
print(a, b)
sys.exit(int(abs(a - b) > 1e-4 * abs(b)))
''')

    bug('B31', 'C17', IM, ('        max_shift = min(img_w, img_h) - max(width, height)\n', '        max_shift = img_w - width\n'),
        'images that are wider in the first dimension than in the second',
        'the rectangle is shifted out of the image and clipped, so that observed and unobserved pixels are no partition',
        '''
from fbs.data.images import ImageRestore
d = ImageRestore('inpaint-5', (24, 10, 1))
bad = 0
for i in range(60):
    m = d.gen_mask(jax.random.PRNGKey(i))
    a = np.concatenate([np.asarray(m.unobs_inds_ravelled), np.asarray(m.obs_inds_ravelled)])
    bad += not np.array_equal(np.sort(a), np.arange(240))
print(bad)
sys.exit(int(bad > 0))
''')

    bug('B32', 'C18', IM, ('        stride_h, stride_w = (h - rectangle_size) / b, (w - rectangle_size) / b', '        stride_w, stride_h = (h - rectangle_size) / b, (w - rectangle_size) / b'),
        'non-square images',
        'the painted rectangle leaves the image',
        '''
from fbs.data.images import Image
d = Image()
d.image_shape, d.task = (12, 30, 1), 'inpaint-6'
z = [int((np.asarray(d.corrupt(jax.random.PRNGKey(i), jnp.ones((12, 30, 1)))) == 0).sum()) for i in range(40)]
print(sorted(set(z)))
sys.exit(int(set(z) != {36}))
''')

    bug('B33', 'C19', 'fbs/nn/unet.py', ('        v = v / (H * W)\n', '        v = v / (B * H * W)\n'),
        'a batch; masked by a layer normalisation up to its epsilon',
        'the output of the network for an image depends on how many other images are in the batch',
        '''
from fbs.nn.models import make_st_nn
from fbs.nn.unet import UNet
net = UNet(dt=.1, dim=16)
p, _, f = make_st_nn(jax.random.PRNGKey(0), net, (8, 8, 1), 4)
x, t = jax.random.normal(jax.random.PRNGKey(1), (4, 8, 8, 1)), jnp.array([.1, .2, .3, .4])
a, b = np.asarray(f(x, t, p)), np.stack([np.asarray(f(x[i:i + 1], t[i:i + 1], p)) for i in range(4)]).reshape(4, 8, 8, 1)
print(np.abs(a - b).max())
sys.exit(int(np.abs(a - b).max() > 1e-4))
''')

    bug('B34', 'C20', 'fbs/nn/utils.py', ('            if count % count_every == 0:', '            if (count - count_start) % count_every == 0:'),
        'a start of the schedule that is not a multiple of the stride',
        'the moving average is updated at other steps than the multiples of the stride',
        '''
import optax
from fbs.nn.utils import make_optax_kernel
_, ema = make_optax_kernel(optax.sgd(.1), lambda p: jnp.sum(p))
e = jnp.zeros(1)
got = []
for c in range(12):
    e2 = ema(e, jnp.ones(1) * (c + 1), c, 5, 3, .5)
    got.append(bool(e2[0] != e[0]))
    e = e2
print(got)
sys.exit(int(got != [c < 5 or c % 3 == 0 for c in range(12)]))
''')

    bug('B35', 'C14', LI, ("""                                        in_axes=[1, 0, 1, 0],
                                        out_axes=1)(fwd_paths[:, 1:], ts[1:], fwd_paths[:, :-1], ts[:-1])
            return jnp.mean((nn_evals - cond_score_evals) ** 2)
        else:
            raise NotImplementedError(f'Loss {loss_type} not implemented.')

    def loss_fn_save_mem""", """                                        in_axes=[1, 0, 1, None],
                                        out_axes=1)(fwd_paths[:, 1:], ts[1:], fwd_paths[:, :-1], ts[0])
            return jnp.mean((nn_evals - cond_score_evals) ** 2)
        else:
            raise NotImplementedError(f'Loss {loss_type} not implemented.')

    def loss_fn_save_mem"""),
        'the loss of type ipf-score with more than one step',
        'the transition score is computed from the initial instead of the previous time',
        '''
from fbs.sdes import make_linear_sde_law_loss, StationaryConstLinearSDE
a, b = -.5, 1.
loss = make_linear_sde_law_loss(StationaryConstLinearSDE(a, b), lambda x, t, p: jnp.zeros_like(x), t0=0., T=2., nsteps=4, random_times=False, loss_type='ipf-score')
got = float(loss(jnp.zeros(1), jax.random.PRNGKey(0), jax.random.normal(jax.random.PRNGKey(1), (20000, 2))))
want = 2 * a / (b ** 2 * (math.exp(2 * a * .5) - 1))  # E[score^2] = 1 / Q
print(got, want)
sys.exit(int(abs(got / want - 1) > .02))
''')

    bug('B36', 'C12', SI, ('        ddt = jnp.abs(t_next - t) / integration_nsteps', '        ddt = jnp.abs(ts[1] - ts[0]) / integration_nsteps'),
        'a grid that is not equidistant',
        'every interval is integrated with the length of the first one',
        '''
from fbs.sdes.simulators import euler_maruyama
ts = jnp.array([0., .1, .5, 2.])
p = np.asarray(euler_maruyama(jax.random.PRNGKey(0), jnp.zeros(1), ts, lambda x, t: jnp.ones(1), lambda t: 0., integration_nsteps=3, return_path=True))[:, 0]
print(p)
sys.exit(int(np.abs(p - np.asarray(ts)).max() > 1e-5))
''')

    bug('B37', 'C13', LI, ("""        return self.drift(x, t) + self.dispersion(t) ** 2 * score_h


class StationaryExp""", """        return self.drift(x, t) + self.dispersion(T) ** 2 * score_h


class StationaryExp"""),
        'a dispersion that varies in time; the end point is still hit',
        "Doob's drift pulls with the dispersion of the final time",
        '''
from fbs.sdes import StationaryLinLinearSDE
s = StationaryLinLinearSDE(.1, 5., 0., 1.)
x, tgt, t, T = jnp.array([.3]), jnp.array([1.2]), .4, 1.
F, Q = math.exp(-.5 * float(s.beta_integral(T, t))), 1 - math.exp(-float(s.beta_integral(T, t)))
want = -.5 * float(s.beta(t)) * .3 + float(s.beta(t)) * F * (1.2 - F * .3) / Q
got = float(s.bridge_drift(x, t, tgt, T)[0])
print(got, want)
sys.exit(int(abs(got - want) > 1e-3))
''')

    bug('B38', 'C11', LI, ('                                + 2 * (beta_min * T - beta_max * t0) / (T - t0))', '                                + 2 * beta_min * T / (T - t0))'),
        'a schedule whose initial time is not zero',
        'the integral of the noise schedule is not that of the schedule',
        '''
from fbs.sdes import StationaryLinLinearSDE
s = StationaryLinLinearSDE(.1, 5., .5, 2.)
z = np.linspace(.7, 1.6, 2001)
want = np.trapezoid([float(s.beta(u)) for u in z], z) if hasattr(np, 'trapezoid') else np.trapz([float(s.beta(u)) for u in z], z)
got = float(s.beta_integral(1.6, .7))
print(got, want)
sys.exit(int(abs(got - want) > 1e-3))
''')

    bug('B39', 'C09', SMC, ("""        us = transition_sampler(us_prev, v_prev, t_prev, key_proposal, **kwargs)

        return (us, log_ell), None""", """        us = transition_sampler(us_prev, v_prev, t_prev, key_proposal)

        return (us, log_ell), None"""),
        'a transition with an optional argument handed over by the kernel',
        'the optional arguments of the model reach the likelihood but not the transition of the particle MCMC filter',
        '''
from fbs.samplers.smc import pmcmc_filter_step
from fbs.samplers.resampling import stratified
us, ell = pmcmc_filter_step(jax.random.PRNGKey(0), jnp.zeros((4, 1)), jnp.zeros((5, 1)), jnp.arange(4.), lambda u, v, t, k, shift=0.: u + shift,
                            lambda v, u, vp, t, shift=0.: jnp.full(u.shape[0], shift), stratified, 5, shift=1.)
print(us[:, 0], ell)
sys.exit(int(not (np.allclose(us, 3.) and np.allclose(ell, 3., atol=1e-4))))
''')

    bug('B40', 'C04', SMC, ('        inds = resampling(jnp.exp(log_weights), key_resampling)\n\n        _, subkey_', '        inds = resampling(jnp.exp(jnp.maximum(log_weights, -12.)), key_resampling)\n\n        _, subkey_'),
        'particles of zero or negligible likelihood, and many of them',
        'impossible particles survive the resampling with a small probability',
        '''
from fbs.samplers.smc import bootstrap_filter
from fbs.samplers.resampling import multinomial
n = 1000
run = lambda k: bootstrap_filter(lambda u, v, t, key: u, lambda v, u, vp, t: jnp.where(u[:, 0] < 1., 0., -jnp.inf), jnp.zeros((2, 1)), jnp.arange(2.),
                                 lambda key, v, m: jnp.arange(m)[:, None] * 1., k, n, multinomial)[0]
us = np.asarray(jax.jit(jax.vmap(run))(jax.random.split(jax.random.PRNGKey(0), 100)))
print((us > .5).sum())
sys.exit(int((us > .5).any()))
''')

    bug('B41', 'C23', BY, ('self.emission(phi, self.psi), math.sqrt(self.xi))', 'self.emission(phi, self.psi), self.xi)'),
        'a noise variance other than one',
        'the likelihood takes the noise variance for the standard deviation',
        '''
from fbs.data.bayesian import Crescent
c = Crescent(10, 1.3, .25)
phi, y = jnp.array([.4, -.2]), 1.1
e = -.2 / 1.3 + .5 * (.16 + 1.69)
want = -.5 * (1.1 - e) ** 2 / .25 - .5 * math.log(2 * math.pi * .25)
got = float(c.log_cond_pdf_likelihood(y, phi))
print(got, want)
sys.exit(int(abs(got - want) > 1e-4))
''')

    bug('B42', 'C21', SI, ('    T = ts[-1]\n', '    T = jnp.asarray(ts[-1], jnp.float32)\n'),
        'double precision and a terminal time that is not a binary fraction',
        'the reversed time is rounded to single precision',
        '''
from fbs.sdes.simulators import reverse_simulator
ts = jnp.linspace(0., 1.1, 12)
got = reverse_simulator(jax.random.PRNGKey(0), jnp.ones(1), ts, lambda x, t: 0. * x, lambda x, t: -t * jnp.ones(1), lambda t: 0.)
t = np.linspace(0., 1.1, 12)
want = 1. + np.sum((1.1 - t[:-1]) * .1)
print(got, want)
sys.exit(int(got.dtype != jnp.float64 or abs(float(got[0]) - want) > 1e-10))
''', x64=True)

    bug('B43', 'C07', CS, ('Gamma_log_w = transition_logpdf(x_t, xs_t_m_1, v_t_m_1, t_m_1, *args, **kwargs)', 'Gamma_log_w = transition_logpdf(x_t, xs_t_m_1, v_t, t_m_1, *args, **kwargs)'),
        'a transition that depends on the measurement, and the backward sampling variant',
        'the backward sampling pass weighs the particles by the transition given the next measurement instead of the current one',
        '''
from fbs.samplers.csmc.csmc import backward_sampling_pass
K, n = 4, 5
u = jax.random.normal(jax.random.PRNGKey(0), (K + 1, n))
lt = lambda x, us, v, t: jnp.where(jnp.arange(n) == v, 0., -1e4)   # the measurement tells which particle is the parent
v = jnp.array([3, 1, 4, 0, 2])
xs, bs = backward_sampling_pass(jax.random.PRNGKey(1), lt, v, jnp.arange(K + 1.), u, jnp.full((K + 1, n), -math.log(n)),
                                measurement_cond_logpdf=lambda v, us, vp, t: jnp.zeros(n))
print(bs)
sys.exit(int(list(np.asarray(bs[:-1])) != [3, 1, 4, 0]))
''')

    bug('B44', 'C01', R, ('    w_max = weights.max()', '    w_max = jnp.maximum(weights.max(), 1e-2)'),
        'more than a hundred particles with nearly equal weights',
        'killing moves particles that uniform weights must leave alone',
        '''
from fbs.samplers.resampling import killing
n = 500
i = np.asarray(killing(jnp.full(n, 1 / n), jax.random.PRNGKey(0)))
print((i != np.arange(n)).sum())
sys.exit(int((i != np.arange(n)).any()))
''')

    bug('B45', 'C03', CS, ('    return jnp.exp(log_weights)\n', '    return jnp.maximum(jnp.exp(log_weights), 1e-7)\n'),
        'particles of zero weight',
        'normalised weights have a floor, so that impossible particles have positive probability and the sum is not one',
        '''
from fbs.samplers.csmc.csmc import normalise
w = np.asarray(normalise(jnp.array([0., -jnp.inf, -3.])))
print(w)
sys.exit(int(w[1] != 0))
''')
