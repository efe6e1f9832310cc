"""Planted bugs, third round: the experiments, their data and their evaluation. Every demonstration runs the script itself in a scratch directory."""
EX = 'experiments/'
RUN = '''
import tempfile, subprocess
repo = os.getcwd()
top = tempfile.mkdtemp(prefix='demo-')
tmp = os.path.join(top, 'experiments')
os.makedirs(os.path.join(top, 'datasets'))
import atexit, shutil
atexit.register(lambda: shutil.rmtree(top, ignore_errors=True))
env = dict(os.environ, PYTHONPATH=repo, JAX_PLATFORMS='cpu', MPLBACKEND='Agg', PYTHONDONTWRITEBYTECODE='1')
for f in ('toy/results', 'sb/results', 'sb_imgs/results', 'datasets', 'checkpoints', 'figs', 'imgs/results_supr/arrs', 'imgs/results_supr/imgs'):
    os.makedirs(os.path.join(tmp, f))
def run(script, *args, before=''):
    """the script of the repository, as a user runs it; `before`: code executed first in the same interpreter"""
    path = os.path.join(repo, 'experiments', script)
    code = "import sys, runpy\\nsys.argv = %r\\n%s\\nrunpy.run_path(%r, run_name='__main__')\\n" % ([path, *map(str, args)], before, path)
    p = subprocess.run([sys.executable, '-W', 'ignore', '-c', code], cwd=tmp, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        print(p.stdout[-3000:])
        sys.exit(2)
    return p.stdout
'''


def define(bug):
    def exp(id, prop, file, edits, needs, breaks, demo):
        bug(id, prop, EX + file, edits, needs, breaks, RUN + demo)

    exp('B46', 'C26', 'toy/gp_filter.py', ('    cond_m = v_prev + reverse_drift_v(v_prev, u_prev, t_prev) * dt\n', '    cond_m = v_prev + reverse_drift_v(u_prev, v_prev, t_prev) * dt\n'),
        'the filter baseline only; the script runs and its samples look plausible',
        'the measurement model evaluates the drift with state and observation exchanged, so that the filter weights are wrong',
        '''
run('toy/gp_filter.py', '--d', 2, '--nparticles', 200, '--nsamples', 600, '--id', 3)
z = np.load(os.path.join(tmp, 'toy/results/filter-const-200-3.npz'))
err = np.abs(z['samples'].mean(0) - z['gp_mean']).max()
dev = np.abs(np.cov(z['samples'].T) - z['gp_cov']).max()
print(err, dev, z['gp_mean'])
sys.exit(int(max(err, dev) > .25))
''')
    exp('B47', 'C26', 'toy/gp_twisted.py', ("    m_ = u_prev + reverse_cond_drift(u_prev, t, y) * dt\n    return jnp.sum", "    m_ = u_prev + reverse_drift(u_prev, t) * dt\n    return jnp.sum"),
        'the twisted baseline only: its density, not its sampler',
        'the density of the twisted proposal is that of the untwisted transition, so that the importance weights ignore the twisting',
        '''
run('toy/gp_twisted.py', '--d', 2, '--nparticles', 100, '--nsamples', 600, '--id', 3)
z = np.load(os.path.join(tmp, 'toy/results/twisted-const-100-3.npz'))
err = np.abs(z['samples'].mean(0) - z['gp_mean']).max()
dev = np.abs(np.cov(z['samples'].T) - z['gp_cov']).max()
print(err, dev)
sys.exit(int(max(err, dev) > .2))
''')
    exp('B48', 'C26', 'toy/gp_csgm.py', ('- cov_mat * F @ jax.scipy.linalg.cho_solve(chol, F * cov_mat)\n        return', '- cov_mat @ jax.scipy.linalg.cho_solve(chol, F * cov_mat)\n        return'),
        'intermediate times; at time zero both agree',
        'the likelihood of the guided score baseline misses one factor of the noising process in its conditional covariance',
        '''
run('toy/gp_csgm.py', '--d', 3, '--nsamples', 20000, '--id', 3, '--sde', 'lin')
z = np.load(os.path.join(tmp, 'toy/results/csgm-lin-3.npz'))
err = np.abs(z['samples'].mean(0) - z['gp_mean']).max()
dev = np.abs(np.cov(z['samples'].T) - z['gp_cov']).max()
print(err, dev)
sys.exit(int(max(err, dev) > .045))
''')
    exp('B49', 'C26', 'tabulators/tabulate_toy.py', ('jnp.diagonal(approx_covs - gp_cov[None, :, :], axis1=1, axis2=2)', 'jnp.diagonal(approx_covs - gp_cov[None, :, :])'),
        'the MCMC methods; the other columns and methods are right',
        'the error of the variances is read off the diagonal over (chain, variable) instead of (variable, variable)',
        '''
rng = np.random.default_rng(0)
want = {}
for m in ['filter-const-100', 'gibbs-eb-const-100', 'pmcmc-0.005-const-100', 'pmcmc-0.001-const-100', 'twisted-const-100', 'csgm-const']:
    e = []
    for i in range(100):
        x = rng.normal(size=(2, 20, 2)) * [1., 3.]
        if m[0] not in 'gp':
            x = x[0]
        np.savez(os.path.join(tmp, 'toy/results', f'{m}-{i}'), samples=x, gp_mean=np.zeros(2), gp_cov=np.eye(2))
        e.append(np.mean([np.abs(np.var(c, axis=0, ddof=1) - 1) for c in (x if x.ndim == 3 else [x])]))
    want[m] = np.mean(e)
out = run('tabulators/tabulate_toy.py')
bad = 0
for m, w in want.items():
    line = [l for l in out.splitlines() if f'Method {m} |' in l][0]
    got = float(line.split('Var')[1].split()[0])
    print(m, got, w)
    bad |= abs(got - w) > 1e-3
sys.exit(int(bad))
''')
    SUPR = '''
import textwrap
rng = np.random.default_rng(0)
before = textwrap.dedent("""
    import numpy as np, jax, jax.numpy as jnp
    import fbs.nn.models
    seen = []
    def make_st_nn(*a, **kw):
        n = int(np.prod(kw['dim_in']))
        def nn(x, t, param):
            jax.debug.callback(lambda x_, t_: seen.append((np.asarray(x_), float(np.ravel(t_)[0]))), x, t)
            return -x
        return jnp.zeros(n), None, nn
    fbs.nn.models.make_st_nn = make_st_nn
""")
'''
    exp('B50', 'C27', 'imgs/supr_csgm.py', ('    F, Q = discretise_linear_sde(T - t, ts[0])\n    v_hat', '    F, Q = discretise_linear_sde(t, ts[0])\n    v_hat'),
        'the super-resolution baseline: intermediate values of the noised observation',
        'the observation is noised to the reversed time, so that the network sees clean observations next to pure noise',
        SUPR + '''
np.save(os.path.join(tmp, 'datasets/celeba_hq8.npy'), rng.uniform(0, 1, (30000, 8, 8, 3)).astype('float32'))
np.savez(os.path.join(tmp, 'checkpoints/celeba-8_lin_2999.npz'), param=np.zeros(192), ema_param=np.zeros(192))
after = textwrap.dedent("""
    import atexit
    def report():
        jax.effects_barrier()
        s = np.array([(t, x.std()) for x, t in seen])
        np.save('seen.npy', s)
    atexit.register(report)
""")
# the standard deviation over the image: half noise, half noised observation; at the last steps the observation is nearly clean
run('imgs/supr_csgm.py', '--dataset', 'celeba-8', '--rate', 2, '--sde', 'lin', '--test_nsteps', 50, '--ny0s', 1, '--nsamples', 3, before=before + after + textwrap.dedent("""
    import fbs.data.images as im
    obs = []
    orig = im.ImageRestore.concat
    def concat(self, x, y, mask):
        jax.debug.callback(lambda y_: obs.append(np.asarray(y_)), y)
        return orig(self, x, y, mask)
    im.ImageRestore.concat = concat
    atexit.register(lambda: np.savez('obs', *obs))
"""))
seen = np.load(os.path.join(tmp, 'seen.npy'))
obs = np.load(os.path.join(tmp, 'obs.npz'))
obs = [obs[k] for k in obs.files]
y0 = [o for o in obs if o.min() >= 0 and o.max() <= 1][0]
# 50 noised observations per sample: the correlation with the clean one grows along the reverse path
noised = [o for o in obs if o.min() < 0 or o.max() > 1]
corr = np.array([np.corrcoef(o.ravel(), y0.ravel())[0, 1] for o in noised])
k = len(corr) // 3
parts = corr[:k * 3].reshape(3, k)
print(parts[:, :8].mean(), parts[:, -8:].mean())
sys.exit(int(parts[:, -8:].mean() < parts[:, :8].mean()))
''')
    exp('B51', 'C27', 'imgs/train.py', ('        x0s = dataset.enumerate_subset(j, perm_inds, subkey)\n', '        x0s = dataset.enumerate_subset(i, perm_inds, subkey)\n'),
        'training for several epochs; the loss still goes down',
        'each epoch trains on a single batch over and over',
        SUPR + '''
x = np.zeros((30000, 2, 2, 3), 'float32')
x[:, 0, 0, 0] = np.arange(30000) / 30000
np.save(os.path.join(tmp, 'datasets/celeba_hq2.npy'), x)
try:
    run('imgs/train.py', '--dataset', 'celeba-2', '--sde', 'const', '--batch_size', 2900, '--nsteps', 2, '--nepochs', 2, before=textwrap.dedent("""
        import numpy as np, jax.numpy as jnp, atexit
        import fbs.nn.models, fbs.nn.utils
        fbs.nn.models.make_st_nn = lambda *a, **kw: (jnp.zeros(12), None, lambda x, t, p: -x * (1 + p.sum()))
        seen = []
        real = fbs.nn.utils.make_optax_kernel
        def make(*a, **kw):
            k, e = real(*a, **kw)
            def k2(param, state, key, xs):
                seen.append(np.asarray(xs)[:, 0, 0, 0])
                return k(param, state, key, xs)
            return k2, e
        fbs.nn.utils.make_optax_kernel = make
        import fbs.nn as nn_
        if hasattr(nn_, 'make_optax_kernel'):
            nn_.make_optax_kernel = make
        atexit.register(lambda: np.save('seen.npy', np.array(seen)))
    """))
except SystemExit:
    pass  # after the training the script draws samples with the network: not needed
s = np.load(os.path.join(tmp, 'seen.npy'))
s = s.reshape(2, 29000)
print([len(np.unique(e)) for e in s])
sys.exit(int(any(len(np.unique(e)) < 29000 for e in s)))
''')
    exp('B52', 'C28', 'datasets/make_cifar10.py', ('imgs[:, 1024:2048].reshape(-1, 32, 32, 1)', 'imgs[:, 1024:2048].reshape(-1, 32, 32, 1).swapaxes(1, 2)'),
        'images that are not symmetric; shapes and ranges are right',
        'the green plane of every CIFAR10 image is transposed',
        '''
import pickle
os.makedirs(os.path.join(tmp, 'cifar-10-batches-py'))
rng = np.random.default_rng(0)
for n in ['data_batch_%d' % (i + 1) for i in range(5)] + ['test_batch']:
    x = rng.integers(0, 256, (10000, 3072), dtype=np.uint8)
    if n == 'data_batch_2':
        second = x[:50].copy()
    with open(os.path.join(tmp, 'cifar-10-batches-py', n), 'wb') as f:
        pickle.dump({b'data': x}, f, protocol=4)
run('datasets/make_cifar10.py', before="""
import numpy as np
real = np.savez
np.savez = lambda f, **kw: real('part', z=kw['train_data'][10000:10050])
""")
z = np.load(os.path.join(tmp, 'part.npz'))['z']
want = np.moveaxis(second.reshape(-1, 3, 32, 32), 1, -1) / 255.
print(np.abs(z - want).max())
sys.exit(int(np.abs(z - want).max() > 1e-5))
''')
    exp('B53', 'C28', 'tabulators/plot_autocorrs_toy.py', ("signature='(m,n)->(m,n)')(chains), axis=0)", "signature='(m)->(m)')(chains), axis=0)"),
        'chains of several correlated variables; the curves still start at one',
        'the autocorrelation is computed across the variables of one sample instead of along the chain',
        '''
rng = np.random.default_rng(0)
phi = np.array([.2, .5, .9])
for m in ['gibbs-eb-const-10', 'gibbs-eb-const-100', 'pmcmc-0.005-const-100', 'pmcmc-0.005-const-10', 'pmcmc-0.01-const-10', 'pmcmc-0.001-const-10']:
    for i in range(100):
        x = rng.normal(size=(2, 300, 3))
        for t in range(1, 300):
            x[:, t] = phi * x[:, t - 1] + np.sqrt(1 - phi ** 2) * x[:, t]
        np.savez(os.path.join(tmp, 'toy/results', f'{m}-{i}'), samples=x)
run('tabulators/plot_autocorrs_toy.py', before="""
import matplotlib.axes, matplotlib, numpy as np
matplotlib.use('Agg')
import matplotlib.pyplot as plt
rec = []
real = matplotlib.axes.Axes.plot
def plot(self, x, y, *a, **kw):
    rec.append(np.asarray(y))
    return real(self, x, y, *a, **kw)
matplotlib.axes.Axes.plot = plot
for n in ('tight_layout', 'legend', 'show'):
    setattr(plt, n, lambda *a, **kw: None)
plt.savefig = lambda *a, **kw: np.save('curves', np.array(rec))
""")
c = np.load(os.path.join(tmp, 'curves.npy'))
print(c[:, :4])
sys.exit(int(np.abs(c[:, 1] - .9).max() > .08 or np.abs(c[:, 5] - .9 ** 5).max() > .15))
''')
    exp('B54', 'C28', 'tabulators/plot_sb.py', ("f'./sb/results/{method}-{nparticles}-{mc_id}.npz'", "f'./sb/results/{method}-{nparticles}-{p}.npz'"),
        'runs that differ; every file that is opened exists',
        'the figure averages the same run a hundred times instead of the hundred runs',
        '''
rng = np.random.default_rng(0)
for m in ['filter-proper', 'filter-heuristic', 'gibbs-eb']:
    for n in [2, 4, 8, 16, 32, 64]:
        for i in range(100):
            x = rng.normal(size=(50, 2))
            x = (x - x.mean(0)) @ np.linalg.inv(np.linalg.cholesky(np.cov(x.T))).T + np.sqrt(i)
            np.savez(os.path.join(tmp, 'sb/results', f'{m}-{n}-{i}'), samples=x, gp_mean=np.zeros(2), gp_cov=np.eye(2))
run('tabulators/plot_sb.py', before="""
import matplotlib.axes, matplotlib, numpy as np
matplotlib.use('Agg')
import matplotlib.pyplot as plt
rec = []
real = matplotlib.axes.Axes.plot
def plot(self, x, y, *a, **kw):
    rec.append(np.asarray(y))
    return real(self, x, y, *a, **kw)
matplotlib.axes.Axes.plot = plot
for n in ('tight_layout', 'legend', 'show'):
    setattr(plt, n, lambda *a, **kw: None)
plt.savefig = lambda *a, **kw: np.save('curves', np.array(rec))
""")
c = np.load(os.path.join(tmp, 'curves.npy'))
print(c)  # run i is off by sqrt(i) in both variables: the mean squared distance is 2 * 49.5
sys.exit(int(np.abs(c - 99).max() > .5))
''')
    bug('B55', 'C29', 'fbs/sdes/linear.py', ("axis=list(range(2, 2 + len(state_shape)))) * scales[None, :])\n        elif loss_type == 'ipf':", "axis=list(range(2, 2 + len(state_shape)))) * scales[None, :])\n        elif loss_type.startswith('ipf') and loss_type != 'ipf-score':"),
        'a loss name that does not exist but begins like one that does',
        'every loss name that begins with ipf (ipf_score, ipf-disc) silently trains on the mean-matching loss',
        '''
from fbs.sdes import make_linear_sde_law_loss, StationaryLinLinearSDE
sde = StationaryLinLinearSDE(beta_min=.1, beta_max=2., t0=0., T=1.)
bad = 0
for name in ('ipf_score', 'ipf-disc'):
    try:
        print(make_linear_sde_law_loss(sde, lambda x, t, p: x, 0., 1., 3, loss_type=name)(jnp.ones(2), jax.random.PRNGKey(0), jnp.ones((3, 2))))
        bad = 1
    except NotImplementedError:
        pass
sys.exit(bad)
''')
    bug('B56', 'C29', 'fbs/samplers/gibbs.py', [("    if method == 'filter':", "    if method.startswith('filter'):"), ("    elif method == 'debug':", "    elif method.startswith('debug'):")],
        'a method name that begins like one that exists, such as filter-smoother',
        'a request for a longer method name (filter-smoother) silently initialises with the filter',
        '''
from fbs.samplers import gibbs_init
from fbs.sdes import make_linear_sde, StationaryLinLinearSDE
sde = StationaryLinLinearSDE(beta_min=.1, beta_max=2., t0=0., T=1.)
ts = jnp.linspace(0, 1, 4)
sim = make_linear_sde(sde)[2]
bad = 0
for m in ('filter', 'filter-smoother', 'debugging'):
    try:
        gibbs_init(jax.random.PRNGKey(0), jnp.ones(2), (2,), ts, lambda k, x0, y0: sim(k, jnp.concatenate([x0, y0]), ts), sde, lambda xy: (xy[..., :2], xy[..., 2:]),
                   lambda u, v, t, k: u, lambda u2, u, v, t: jnp.zeros(u.shape[0]), lambda v2, u, v, t: jnp.zeros(u.shape[0]), 5, method=m)
        bad += m != 'filter'
    except ValueError:
        bad += 10 * (m == 'filter')
sys.exit(int(bad > 0))
''')
    exp('B57', 'C30', 'toy/gp_pmcmc.py', ("pmcmc-{args.delta}-{args.sde}", "pmcmc-{args.delta:.2f}-{args.sde}"),
        'two commands whose step sizes agree to two decimals, run one after the other',
        'the step size is rounded in the name of the saved results: the results for 0.01 replace those for 0.005',
        '''
for delta in (0.005, 0.01):
    run('toy/gp_pmcmc.py', '--d', 2, '--nparticles', 10, '--nsamples', 3, '--nchains', 2, '--id', 0, '--delta', delta)
saved = sorted(os.listdir(os.path.join(tmp, 'toy/results')))
print(saved)
sys.exit(int(len(saved) != 2))
''')
    exp('B58', 'C30', 'toy/gp_filter.py', ("key = jax.random.PRNGKey(args.id)\n", "key = jax.random.fold_in(jax.random.PRNGKey(args.id), hash(args.sde) % 997)\n"),
        'the same command in another process: string hashes differ from process to process',
        'the random key depends on the hash of a string, so that a run cannot be reproduced',
        '''
out = []
for i in range(3):
    env['PYTHONHASHSEED'] = str(i + 1)
    run('toy/gp_filter.py', '--d', 2, '--nparticles', 10, '--nsamples', 3, '--id', 0)
    out.append(np.load(os.path.join(tmp, 'toy/results/filter-const-10-0.npz'))['samples'])
print(out)
sys.exit(int(any(not np.array_equal(o, out[0]) for o in out)))
''')
    exp('B59', 'C30', 'toy/gp_gibbs.py', ("""{"-eb" if args.explicit_backward else ""}{"-ef" if args.explicit_final else ""}'""", """{"-eb" if args.explicit_backward else "-ef" if args.explicit_final else ""}'"""),
        'both variants asked for at once, after or before a run with one of them',
        'the run with explicit backward and explicit final saves over the one with explicit backward only',
        '''
for flags in (['--explicit_backward'], ['--explicit_backward', '--explicit_final']):
    run('toy/gp_gibbs.py', '--d', 2, '--nparticles', 10, '--nsamples', 3, '--nchains', 2, '--id', 0, *flags)
saved = sorted(os.listdir(os.path.join(tmp, 'toy/results')))
print(saved)
sys.exit(int(len(saved) != 2))
''')
    bug('B60', 'C31', 'fbs/nn/unet.py', [("mean = jnp.mean(kernel, axis=redux, dtype=self.dtype, keepdims=True)", "mean = jax.lax.stop_gradient(jnp.mean(kernel, axis=redux, dtype=self.dtype, keepdims=True))"),
                                         ("var = jnp.var(kernel, axis=redux, dtype=self.dtype, keepdims=True)", "var = jax.lax.stop_gradient(jnp.var(kernel, axis=redux, dtype=self.dtype, keepdims=True))")],
        'the gradient of the network, not its value',
        'the statistics that standardise the weights are treated as constants: the gradient is not that of the loss (it is not orthogonal to scaling and shifting the kernel, which do not matter)',
        '''
from fbs.nn.unet import WeightStandardizedConv
net = WeightStandardizedConv(features=4, kernel_size=(3, 3), padding=1)
x = jax.random.normal(jax.random.PRNGKey(0), (2, 6, 6, 3))
p = net.init(jax.random.PRNGKey(1), x)
f = lambda p: jnp.sum(jnp.sin(net.apply(p, x)))
g = jax.grad(f)(p)['params']['kernel']
k = p['params']['kernel']
h = 1e-2
d = jax.random.normal(jax.random.PRNGKey(2), k.shape) * jnp.std(k)
put = lambda z: {'params': {**p['params'], 'kernel': z}}
num = (f(put(k + h * d)) - f(put(k - h * d))) / (2 * h)
print(num, jnp.vdot(g, d))
sys.exit(int(abs(num - jnp.vdot(g, d)) > .05 * abs(num) + .02))
''')
    bug('B61', 'C31', 'fbs/sdes/simulators.py', ("        x = step(x, t, t_next, key_)\n", "        x = step(jax.lax.stop_gradient(x), t, t_next, key_)\n"),
        'differentiating a simulated path of more than one interval',
        'the derivative of the simulated state is cut at every time of the grid: only the last interval is differentiated',
        '''
from fbs.sdes.simulators import euler_maruyama
ts = jnp.linspace(0., 1., 5)
f = lambda x: euler_maruyama(jax.random.PRNGKey(0), x, ts, lambda z, t: -z, lambda t: .5, 2)[0]
got, want = jax.grad(f)(jnp.ones(1))[0], (1 - 1 / 8) ** 8
print(got, want)
sys.exit(int(abs(got - want) > 1e-3))
''')
