"""C29: unknown options: the library and the scripts are run with names that do not exist; the monitor watches what comes back, which model the
scripts hand on, and which files appear."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib.core import *
import importlib.util
import subprocess
import tempfile

spec = importlib.util.spec_from_file_location('images', os.path.join(VERIF, 'checks', 'C27_images.py'))
images = importlib.util.module_from_spec(spec)
spec.loader.exec_module(images)


def names(c, known, n):
    """names that do not exist: misspellings, other cases, prefixes, and nothing at all"""
    near = [v for k in known for v in (k + '_', k[:-1], k.upper(), k.capitalize(), 'x' + k, k + '2', k[1:])]
    out = ['', 'none', 'default'] + [''.join(c.rng.permutation(list(k))) for k in known] + near
    out = [o for o in dict.fromkeys(out) if o not in known and not any(w in o for w in ('inpaint', 'supr'))]   # tasks carry numbers
    return out[:2] + [out[i] for i in sorted(c.rng.choice(range(2, len(out)), min(n, len(out) - 2), replace=False))]


def library(c):
    import jax
    import jax.numpy as jnp
    from fbs.samplers import gibbs_init
    from fbs.sdes import make_linear_sde, make_linear_sde_law_loss, StationaryLinLinearSDE, StationaryConstLinearSDE
    from fbs.sdes.simulators import reverse_simulator
    from fbs.data import ImageRestore
    from fbs.data.images import Image
    from fbs.nn.unet import Upsample, UNet
    from fbs.nn.base import sinusoidal_embedding
    sde = StationaryLinLinearSDE(beta_min=.1, beta_max=2., t0=0., T=1.)
    ts, x = jnp.linspace(0, 1, 4), jnp.ones((3, 2))
    _, _, sim = make_linear_sde(sde)
    key = jnp.asarray(c.key())

    class Other:
        a, b, c, z, mean, beta_min, beta_max, t0, T = -.5, 1., .7, 1., 0., .1, 2., 0., 1.
        beta_integral = staticmethod(lambda t, s: t - s)
        beta = staticmethod(lambda t: 1.)
        drift = staticmethod(lambda x, t: -x)
        dispersion = staticmethod(lambda t: 1.)

    class Data(Image):
        n, xs, image_shape, task, resolution = 3, jnp.ones((3, 8, 8, 1)), (8, 8, 1), '', 8

        def __init__(self, task):
            self.task = task

        sampler = None

    Data.__abstractmethods__ = frozenset()
    trans = lambda u, v, t, k, **kw: u + jax.random.normal(k, u.shape)
    logpdf = lambda u2, u, v, t, **kw: jnp.zeros(u.shape[0])
    lik = lambda v2, u, v, t, **kw: jnp.zeros(u.shape[0])
    loss = lambda kind, **kw: make_linear_sde_law_loss(sde, lambda x, t, p: x, 0., 1., 3, loss_type=kind, **kw)(jnp.ones(2), key, x)
    start = lambda m: gibbs_init(key, jnp.ones(2), (2,), ts, lambda k, x0, y0: sim(k, jnp.concatenate([x0, y0]), ts), sde,
                                 lambda xy: (xy[..., :2], xy[..., 2:]), trans, logpdf, lik, 5, method=m)
    rev = lambda i: reverse_simulator(key, x, ts, lambda x, t: -x, sde.drift, sde.dispersion, integrator=i)
    up = lambda m: Upsample(method=m).init_with_output(key, jnp.ones((1, 4, 4, 2)))
    unet = lambda m: jax.eval_shape(lambda: UNet(dt=.1, dim=8, upsampling=m).init_with_output(key, jnp.ones((1, 8, 8, 1)), jnp.ones((1,))))
    tasks = ['inpaint-3', 'supr-2']
    CALLS = {
        'method of gibbs_init': (start, ['smoother', 'filter', 'debug']),
        'integrator of reverse_simulator': (rev, ['euler-maruyama']),
        'loss type': (loss, ['score', 'ipf', 'ipf-score']),
        'loss type (saving memory)': (lambda k: loss(k, save_mem=True), ['score']),
        'task of ImageRestore': (lambda t: ImageRestore(t, (4, 4, 1)).gen_mask(key), tasks),
        'upsampling of Upsample': (up, ['resize', 'pixel_shuffle']),
        'upsampling of the network': (unet, ['pixel_shuffle']),
        'discretised process': (lambda s: make_linear_sde({'lin': sde, 'const': StationaryConstLinearSDE(a=-.5, b=1.)}.get(s, Other()))[0](.7, .1), ['lin', 'const']),
        'task of a corruption': (lambda t: Data(t).corrupt(key, jnp.ones((8, 8, 1))), ['inpaint-3', 'supr-2']),
        'dimension of the time embedding': (lambda d: sinusoidal_embedding(jnp.asarray(.3), out_dim=int(d) if d.isdigit() else d), ['4', '32']),
    }
    for what, (f, known) in CALLS.items():
        for k in known:
            with c.guard('a documented option is refused', call=what, option=k):
                f(k)
                c.ev('accepted')
        for k in names(c, known, 40) + ['ipf', 'ipf-score'] * ('memory' in what) if 'dimension' not in what else ['3', '7', '33']:
            c.case('refused', {'call': what, 'option': k})
            try:
                r = f(k)
            except Exception as e:
                c.ev('refusals')
                continue
            c.fail('an unknown option is not refused', call=what, option=k, got=str(jax.tree_util.tree_map(np.shape, r))[:200])


TOY = [('toy/gp_csgm.py', ['--nsamples', '2'], 'toy'), ('toy/gp_filter.py', ['--nsamples', '2', '--nparticles', '3'], 'toy'),
       ('toy/gp_gibbs.py', ['--nsamples', '2', '--nchains', '2', '--nparticles', '3'], 'toy'),
       ('toy/gp_pmcmc.py', ['--nsamples', '2', '--nchains', '2', '--nparticles', '3'], 'toy'),
       ('toy/gp_twisted.py', ['--nsamples', '2', '--nparticles', '3'], 'toy')]


def run(c, script, args, params=None, dataset=None):
    """-> (exit status, files that appeared, output)"""
    with tempfile.TemporaryDirectory(prefix='verif-opt-') as tmp:
        cwd = os.path.join(tmp, 'exp')
        for f in ('imgs/results_supr/arrs', 'imgs/results_supr/imgs', 'imgs/results_inpainting/arrs', 'imgs/results_inpainting/imgs',
                  'sb_imgs/results', 'checkpoints', 'tmp_figs', 'figs', 'toy/results', 'toy/figs', 'sb/results', 'sb/figs'):
            os.makedirs(os.path.join(cwd, f))
        if dataset:
            images.write_data(tmp, dataset, 3)
        for f in params or []:
            n = 784 if dataset == 'mnist' else 12
            np.savez(os.path.join(cwd, 'checkpoints', f), param=np.zeros(n, np.float32), ema_param=np.zeros(n, np.float32), param_fwd=np.zeros(784, np.float32), param_bwd=np.zeros(784, np.float32))
        before = {os.path.join(r, f) for r, _, fs in os.walk(tmp) for f in fs}
        env = {k: v for k, v in os.environ.items() if not k.startswith('VERIF_')}
        env.update(PYTHONPATH=REPO, PYTHONDONTWRITEBYTECODE='1', JAX_PLATFORMS='cpu', MPLBACKEND='Agg')
        path = os.path.join(REPO, 'experiments', script)
        cmd = [sys.executable, '-W', 'ignore'] + ([os.path.join(VERIF, 'lib', 'imgs_driver.py'), os.path.join(tmp, 'audit.pkl')] if 'imgs' in script else [])
        p = subprocess.run([*cmd, path, *args], cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
        c.ev('scripts_run')
        after = {os.path.join(r, f) for r, _, fs in os.walk(tmp) for f in fs} - before - {os.path.join(tmp, 'audit.pkl')}
        return p.returncode, sorted(os.path.relpath(f, cwd) for f in after), p.stdout


IM = ['--test_nsteps', '3', '--nsamples', '1', '--ny0s', '1', '--test_epoch', '7']
RUNS = [(s, a + ['--d', '1', '--sde', '{sde}'], None, None) for s, a, _ in TOY]
RUNS += [('sb/filter.py', ['--nsamples', '2', '--nparticles', '3', '--d', '1', '--x0', '{x0}'], None, None)]
for s in ('imgs/inpainting.py', 'imgs/supr.py', 'imgs/inpainting_csgm.py', 'imgs/supr_csgm.py', 'imgs/inpainting_twisted.py', 'imgs/supr_twisted.py'):
    size = ['--rate', '2'] if 'supr' in s else ['--rect_size', '1']
    more = ['--nparticles', '3'] if 'csgm' not in s else []
    RUNS.append((s, IM + size + more + ['--dataset', 'celeba-2', '--sde', '{sde}'], 'celeba-2', 1))
    RUNS.append((s, IM + size + more + ['--dataset', '{dataset}', '--sde', 'const'], 'celeba-2', 1))
    if s in ('imgs/inpainting.py', 'imgs/supr.py'):
        RUNS.append((s, IM + size + more + ['--dataset', 'celeba-2', '--sde', 'const', '--method', '{method}'], 'celeba-2', 1))
RUNS += [('imgs/train.py', ['--dataset', 'celeba-2', '--sde', '{sde}', '--nepochs', '2', '--batch_size', '2900'], 'celeba-2', None),
         ('imgs/train.py', ['--dataset', '{dataset}', '--sde', 'const', '--nepochs', '2', '--batch_size', '2900'], 'celeba-2', None),
         ('sb_imgs/supr.py', ['--rate', '4', '--sde', '{sde}', '--method', 'filter', '--test_nsteps', '3', '--sb_step', '7', '--nparticles', '3', '--nsamples', '1'], 'mnist', 1),
         ('sb_imgs/supr.py', ['--rate', '4', '--sde', 'const', '--method', '{method}', '--test_nsteps', '3', '--sb_step', '7', '--nparticles', '3', '--nsamples', '1'], 'mnist', 1)]
# the names are such that the script does not stop for want of a file, whichever data set or network it would fall back on
SAFE = {'sde': ['cst', 'linear', 'Const', 'ou', 'LIN', 'constant', ''], 'dataset': ['svhn-2', 'cifar-2', 'CELEBA-2', 'imagenet-2', 'mnst-2'],
        'method': ['smc', 'filt', 'twisted', 'csgm', 'Filter', 'mcmc', ''], 'x0': ['Proper', 'random', 'heuristics', '']}


def scripts(c):
    i, m = c.part
    for s, args, dataset, par in RUNS[i::m]:
        opt = next(a for a in args if a[0] == '{')[1:-1]
        pick = c.rng.choice(len(SAFE[opt]), min(len(SAFE[opt]), 4) if c.thorough else 1, replace=False)
        for name in [SAFE[opt][j] for j in pick]:
            a = [name if z[0] == '{' else z for z in args]
            what = ' '.join([s, *a])
            params = par and [f'{"sb_" if "sb" in s else ""}{d}_{n}_7.npz' for n in {name, 'const', 'lin'} for d in {name, dataset} if '/' not in n + d]
            c.case('script', {'script': s, 'option': opt, 'value': name})
            rc, files, out = run(c, s, a, params, dataset)
            if os.environ.get('VERIF_TIMES'):
                print(what, rc, out.strip().splitlines()[-1:], flush=True)
            files = [f for f in files if not f.endswith('-true.npz') and not f.endswith('.png')]
            c.expect(rc != 0, 'a script runs on with an option that does not exist', command=what, files=files)
            c.expect(not files, 'a script saves results under an option that does not exist', command=what, files=files)
            c.ev('refusals')


if __name__ == '__main__':
    run_sections(
        Check('C29', 'Options of the library and of the experiment scripts x names that do not exist; non-trivial = distinct (option, name)',
              ['the names are misspellings and neighbours of the existing ones']),
        [library, *parts(scripts, 6)], refusals=50, scripts_run=20, accepted=15)
