"""Run one image experiment of the repository with a stand-in model under a boundary monitor.

    python imgs_driver.py OUT.pkl SCRIPT [ARGS...]

The trained network is replaced by a stand-in whose output is known in closed form (`stand_in` below), so that what the
script asks of its model, and what it hands to the library, can be told from what the library returns. Everything that
crosses the boundary (arguments, keys, results, images that are saved) is recorded; nothing is judged here.
"""
import os
import sys
import inspect
import functools
import pickle
import runpy

out, script, args = sys.argv[1], sys.argv[2], sys.argv[3:]
cpus = sorted(os.sched_getaffinity(0))
first = os.getpid() * 2 % len(cpus)
os.sched_setaffinity(0, set((cpus + cpus)[first:first + 2]))

import numpy as np
import jax
import jax.numpy as jnp
import figures
import matplotlib.pyplot as plt
import fbs.nn.models
import fbs.nn.unet
import fbs.nn.utils
import fbs.samplers
import fbs.samplers.smc
import fbs.samplers.gibbs
import fbs.dsb.base

sb = 'sb_imgs' in script
training = script.endswith('train.py')
res = {'events': {}, 'static': {}, 'images': {}, 'probes': {}, 'networks': [], 'losses': [], 'asked': []}
first_call = {}
ev = res['events']


def numpy(tree):
    return jax.tree_util.tree_map(np.asarray, tree)


asks = [0]


def asked(x, t):
    asks[0] += 1
    if asks[0] % 7 == 0 and len(res['asked']) < 40_000:   # 7 does not divide the numbers of steps: every step has its share
        res['asked'].append((np.array(x), float(np.ravel(t)[0])))


# ---- the model: a function of the state, the time and the parameters that is easy to evaluate elsewhere
def stand_in(x, t, param):
    t = jnp.asarray(t)
    t = t.reshape(t.shape + (1,) * (x.ndim - t.ndim)) if t.ndim else t
    m = param.reshape(x.shape[-3:])
    if 'csgm' in script:
        jax.debug.callback(asked, x, t)
    if sb:
        return -.5 * (x - m) * (1. + .3 * t)
    beta = sys.argv[sys.argv.index('--sde') + 1]
    logF = -.5 * (.02 * t + (5. - .02) * t ** 2 / 4) if beta == 'lin' else -.5 * t
    F = jnp.exp(logF)
    flat = (x - F * m).reshape(*x.shape[:-3], -1)
    lam, vec = STAND_IN_SPECTRUM
    F = F.reshape(F.shape[:1] + (1,) * (flat.ndim - 1)) if F.ndim else F
    z = (flat @ vec) / (F ** 2 * lam + 1 - F ** 2)
    return -(z @ vec.T).reshape(x.shape)


def spectrum(n):
    if n > 200 or training:
        return jnp.ones(n), jnp.eye(n)
    i = np.arange(n)
    lam, vec = np.linalg.eigh(.5 * np.eye(n) + .5 * np.exp(-np.abs(i[:, None] - i) / 3))
    return jnp.asarray(lam, jnp.float32), jnp.asarray(vec, jnp.float32)


real_make = fbs.nn.models.make_st_nn
make_sig = inspect.signature(real_make)


def make_st_nn(*a, **kw):
    global STAND_IN_SPECTRUM
    b = make_sig.bind(*a, **kw)
    shape = tuple(b.arguments['dim_in'])
    n = int(np.prod(shape))
    STAND_IN_SPECTRUM = spectrum(n)
    net = b.arguments.get('nn')
    res['networks'].append({'dim_in': shape, 'batch_size': int(b.arguments['batch_size']), 'dt': float(getattr(net, 'dt', float('nan')))})
    return jnp.zeros(n), lambda z: z, stand_in


fbs.nn.models.make_st_nn = make_st_nn


# ---- the library's entry points
def mark(name, value):
    ev.setdefault(name, []).append(numpy(value))


def watch(name, inputs, modules):
    real = next(getattr(m, name) for m in modules if hasattr(m, name))
    sig = inspect.signature(real)

    @functools.wraps(real)
    def wrapper(*a, **kw):
        b = sig.bind(*a, **kw)
        b.apply_defaults()
        b = dict(b.arguments)
        b.update(b.pop('kwargs', {}))
        first_call.setdefault(name, b)
        extra = {k: v for k, v in b.items() if k not in sig.parameters}
        o = real(*a, **kw)
        jax.debug.callback(lambda v: mark(name, v), {'in': {k: b[k] for k in inputs if k in b}, 'extra': extra, 'out': o}, ordered=True)
        return o

    for m in modules:
        if getattr(m, name, None) is real:
            setattr(m, name, wrapper)


SM = (fbs.samplers.smc, fbs.samplers.gibbs, fbs.samplers)
if not training:
    watch('gibbs_init', ['key', 'y0', 'x0'], SM)
    watch('gibbs_kernel', ['key', 'x0', 'y0', 'us_star', 'bs_star'], SM)
    watch('pmcmc_kernel', ['key', 'uT', 'log_ell', 'ys', 'y0'], SM)
    watch('twisted_smc', ['key', 'y'], SM)


# ---- training
def make_optax_kernel(*a, **kw):
    kernel, ema = real_optax(*a, **kw)

    def k2(param, opt_state, *b, **kw2):
        o = kernel(param, opt_state, *b, **kw2)
        mark('step', {'param': param, 'key': b[0], 'xs': np.asarray(b[1])[:, 0, 0, 0], 'out': o[0], 'loss': o[2]})
        return o

    def e2(*b, **kw2):
        o = ema(*b, **kw2)
        mark('ema', {'ema': b[0], 'param': b[1], 'out': o})
        return o

    return k2, e2


real_optax = fbs.nn.utils.make_optax_kernel
fbs.nn.utils.make_optax_kernel = make_optax_kernel


def watch_loss(name):
    real = getattr(fbs.dsb.base, name)
    sig = inspect.signature(real)

    @functools.wraps(real)
    def wrapper(*a, **kw):
        b = sig.bind(*a, **kw)
        b.apply_defaults()
        v = list(b.arguments.values())
        res['losses'].append({'name': name, 'learnt_is_model': v[5] is stand_in, 'simulated_is_model': v[6] is stand_in})
        i = len(res['losses']) - 1
        if v[6] is not stand_in:
            with jax.ensure_compile_time_eval():
                x, t = jax.random.normal(jax.random.PRNGKey(3), (4, 2, 2, 3)), jnp.asarray(.3)
                res['losses'][i].update(x=np.asarray(x), drift=np.asarray(v[6](x, t, None)))
        with jax.ensure_compile_time_eval():
            res['losses'][i]['dispersion'] = np.asarray([v[7](jnp.asarray(t)) for t in (0., .1, .3)])
        jax.debug.callback(lambda w: mark('loss', {**w, 'which': i}), {'key': v[0], 'learnt': v[1], 'simulated': v[2], 'xs': v[3], 'ts': v[4]}, ordered=True)
        return real(*a, **kw)

    setattr(fbs.dsb.base, name, wrapper)


if training and sb:
    watch_loss('ipf_loss_cont')
    watch_loss('ipf_loss_cont_v')
plt.imsave = lambda fname, arr, **kw: res['images'].__setitem__(os.path.basename(str(fname)), np.asarray(arr))
sys.argv = [script, *args]
runpy.run_path(script, run_name='__main__')
jax.effects_barrier()
print('SCRIPT-DONE', flush=True)
if os.environ.get('VERIF_SAVES'):   # only what the script saves matters (C30)
    sys.exit(0)

# ---- what the script handed to the library
key = jax.random.PRNGKey(11)


def fold(i):
    return jax.random.fold_in(key, i)


for name in ('gibbs_init', 'gibbs_kernel', 'pmcmc_kernel'):
    if name not in ev:
        continue
    b, e = first_call[name], ev[name][0]
    kw = {k: jax.tree_util.tree_map(jnp.asarray, v) for k, v in e['extra'].items()}
    ts = np.asarray(b['ts'])
    y0 = jnp.asarray(e['in']['y0'])
    x0 = jnp.asarray(e['out'][0])
    x0 = x0[-1, 0] if b.get('method') == 'debug' else x0
    n = max(4, 20_000 // (x0.size + y0.size))
    p = {'ts': ts, 'extra': e['extra'], 'steps': []}
    for j, k in enumerate(sorted({0, 1, len(ts) // 2, len(ts) - 3, len(ts) - 2})):
        u, u2 = 2 * jax.random.normal(fold(10 * j), (2, n, *x0.shape))
        v, v2 = 2 * jax.random.normal(fold(10 * j + 1), (2, *y0.shape))
        q = {'k': k, 'u': u, 'v': v, 'u2': u2[0], 'v2': v2}
        if b.get('transition_sampler') is not None:
            q['sampled'] = b['transition_sampler'](u, v, ts[k], fold(10 * j + 2), **kw)
        if b.get('transition_logpdf') is not None:
            q['logpdf'] = b['transition_logpdf'](u2[0], u, v, ts[k], **kw)
        q['likelihood'] = b['likelihood_logpdf'](v2, u, v, ts[k], **kw)
        p['steps'].append(numpy(q))
    if b.get('fwd_sampler') is not None:
        m = 40
        xs = 2 * jax.random.normal(fold(901), (m, *x0.shape))
        ys = 2 * jax.random.normal(fold(902), (m, *y0.shape))
        p['forward'] = numpy({'x': xs, 'y': ys, 'path': jax.jit(jax.vmap(lambda k_, x, y: b['fwd_sampler'](k_, x, y, **kw)))(jax.random.split(fold(903), m), xs, ys)})
        p['unpacked'] = numpy(b['unpack'](jnp.asarray(p['forward']['path'][0]), **kw))
    if b.get('fwd_ys_sampler') is not None:
        m = 40
        ys = 2 * jax.random.normal(fold(902), (m, *y0.shape))
        p['forward_y'] = numpy({'y': ys, 'path': jax.jit(jax.vmap(b['fwd_ys_sampler']))(jax.random.split(fold(903), m), ys)})
    if b.get('ref_sampler') is not None:
        p['reference'] = numpy(b['ref_sampler'](fold(905), 3 + jax.random.normal(fold(904), y0.shape), n))
    res['probes'][name] = p
    res['static'][name] = {k: v for k, v in b.items() if isinstance(v, (bool, int, float, str, type(None)))}
if 'twisted_smc' in ev:
    b, e = first_call['twisted_smc'], ev['twisted_smc'][0]
    kw = {k: jax.tree_util.tree_map(jnp.asarray, v) for k, v in e['extra'].items()}
    params = list(inspect.signature(fbs.samplers.smc.twisted_smc).parameters)
    init, trans, twist, prop, prop_logpdf = [b[n] for n in params[3:8]]
    ts, n = np.asarray(b['ts']), int(b['nparticles'])
    x = init(fold(1), n)
    p = {'ts': ts, 'extra': e['extra'], 'steps': [], 'initial': np.asarray(init(fold(2), 4000))}
    y = jnp.asarray(e['in']['y'])
    for j, k in enumerate(sorted({0, 1, len(ts) // 2, len(ts) - 3, len(ts) - 2})):
        u, u2 = jax.random.normal(fold(10 * j), (2, *x.shape))
        u = jnp.broadcast_to(u[:1], u.shape)
        p['steps'].append(numpy({'k': k, 'u': u, 'u2': u2, 'logpdf': trans(u2, u, ts[k]), 'prop_logpdf': prop_logpdf(u2, u, ts[k], y, **kw),
                                 'sampled': jnp.concatenate([prop(fold(10 * j + i + 2), u, ts[k], y, **kw) for i in range(max(1, 2000 // n))]),
                                 'twist': twist(y, u2, ts[k], **kw)}))
    u2 = jax.random.normal(fold(300), x.shape)
    p['final'] = numpy({'u2': u2, 'y': y, 'twist': twist(y, u2, ts[-1], **kw)})
    res['probes']['twisted_smc'] = p
    res['static']['twisted_smc'] = {'nparticles': n}
res['figures'] = figures.RECORD
with open(out, 'wb') as f:
    pickle.dump(jax.tree_util.tree_map(lambda z: tuple(z) if False else z, res), f)
