"""Run one experiment script of the repository under a boundary monitor.

    python script_driver.py OUT.npz SCRIPT [ARGS...]

The library's entry points are replaced by recording wrappers before the script is executed, so that the callables the
script hands to the library (its model) are observed with the arguments the library gives them, whatever the script
calls them internally. After the script has finished, the recorded callables are exercised and what they return is
written to OUT.npz; the check that started this process judges it.
"""
import os
import sys
import inspect
import functools
import runpy

out, script, args = sys.argv[1], sys.argv[2], sys.argv[3:]
# thousands of tiny operations: threads only wait for one another
cpus = sorted(os.sched_getaffinity(0))
first = os.getpid() * 2 % len(cpus)
os.sched_setaffinity(0, set((cpus + cpus)[first:first + 2]))

import numpy as np
import jax
import jax.numpy as jnp
import fbs.samplers
import fbs.samplers.smc
import fbs.samplers.gibbs
import fbs.sdes
import fbs.sdes.simulators

seen = {}
ncalls = {}
observed_y = []
# the argument that carries the observation, and how to read it
OBS = {'gibbs_kernel': lambda b: b['y0'], 'pmcmc_kernel': lambda b: b['y0'], 'bootstrap_filter': lambda b: b['vs'][-1],
       'twisted_smc': lambda b: b['y']}


def watch(name):
    real = next(getattr(m, name) for m in (fbs.samplers.smc, fbs.samplers.gibbs, fbs.samplers) if hasattr(m, name))
    sig = inspect.signature(real)

    @functools.wraps(real)
    def wrapper(*a, **kw):
        ncalls[name] = ncalls.get(name, 0) + 1
        b = sig.bind(*a, **kw)
        b.apply_defaults()
        seen.setdefault(name, dict(b.arguments))
        if name in OBS:
            jax.debug.callback(lambda y: observed_y.append(np.asarray(y)), OBS[name](b.arguments))
        return real(*a, **kw)

    # only the namespaces a script imports from: the library's own calls are not the script's
    fbs.samplers.__dict__[name] = wrapper
    for m in (fbs.samplers.smc, fbs.samplers.gibbs):
        if getattr(m, name, None) is real:
            wrapped_in.append((m, name, real, wrapper))


wrapped_in = []
NAMES = ['bootstrap_filter', 'gibbs_kernel', 'pmcmc_kernel', 'twisted_smc', 'bootstrap_backward_smoother']
for n in NAMES:
    watch(n)
for m, n, real, wrapper in wrapped_in:
    setattr(m, n, wrapper)

# the integrator: whoever calls it, what is integrated is the script's model
real_em = fbs.sdes.simulators.euler_maruyama
em_sig = inspect.signature(real_em)
em, em_starts = {}, []


@functools.wraps(real_em)
def euler_maruyama(*a, **kw):
    b = em_sig.bind(*a, **kw)
    b.apply_defaults()
    em.setdefault('first', dict(b.arguments))
    jax.debug.callback(lambda x: em_starts.append(np.array(x)), b.arguments['x0'])
    return real_em(*a, **kw)


if 'csgm' in script:
    for m in (fbs.sdes.simulators, fbs.sdes):
        if getattr(m, 'euler_maruyama', None) is real_em:
            m.euler_maruyama = euler_maruyama

sys.argv = [script, *args]
runpy.run_path(script, run_name='__main__')
jax.effects_barrier()
print('SCRIPT-DONE', flush=True)

res = {f'ncalls_{k}': v for k, v in ncalls.items()}
n = 80_000
key = jax.random.PRNGKey(7)


def model_of(prefix, us_dim, vs_dim, ts, trans_sampler, trans_logpdf, lik_logpdf, init_sampler):
    """Tabulate the linear Gaussian model: differences with a common key are exact, offsets and spreads are sampled."""
    d, dv = us_dim, vs_dim
    K = len(ts) - 1
    ks = np.unique(np.r_[np.arange(K)])
    eye_u, eye_v = jnp.eye(d), jnp.eye(dv)
    u1, v1 = jax.random.normal(jax.random.fold_in(key, 3), (d,)), jax.random.normal(jax.random.fold_in(key, 4), (dv,))

    def at(k, t):
        o = {}
        if trans_sampler is not None:
            f = lambda u, v, kk, m: trans_sampler(jnp.broadcast_to(u, (m, d)), v, t, kk)
            k1, k2 = jax.random.split(jax.random.fold_in(key, k))
            base = f(jnp.zeros(d), jnp.zeros(dv), k1, n // 2)
            o['off'], o['cov'] = base.mean(0), jnp.cov(base, rowvar=False).reshape(d, d)
            b4 = f(jnp.zeros(d), jnp.zeros(dv), k2, 4)
            o['Au'] = jnp.stack([(f(e, jnp.zeros(dv), k2, 4) - b4).mean(0) for e in eye_u], 1)
            o['Av'] = jnp.stack([(f(jnp.zeros(d), e, k2, 4) - b4).mean(0) for e in eye_v], 1)
        if trans_logpdf is not None:
            g = lambda x, u, v: trans_logpdf(x, u[None], v, t)[0]
            mean = lambda u, v: -jnp.linalg.solve(jax.hessian(g)(u1, u, v), jax.grad(g)(jnp.zeros(d), u, v))
            o['l_off'] = mean(jnp.zeros(d), jnp.zeros(dv))
            o['l_Au'] = jax.jacfwd(mean, 0)(jnp.zeros(d), jnp.zeros(dv))
            o['l_Av'] = jax.jacfwd(mean, 1)(jnp.zeros(d), jnp.zeros(dv))
            o['l_cov'] = -jnp.linalg.inv(jax.hessian(g)(u1, u1, v1))
            o['l_norm'] = g(mean(u1, v1), u1, v1)
        h = lambda x, u, v: lik_logpdf(x, u[None], v, t)[0]
        mean = lambda u, v: -jnp.linalg.solve(jax.hessian(h)(v1, u, v), jax.grad(h)(jnp.zeros(dv), u, v))
        o['v_off'] = mean(jnp.zeros(d), jnp.zeros(dv))
        o['v_Au'] = jax.jacfwd(mean, 0)(jnp.zeros(d), jnp.zeros(dv))
        o['v_Av'] = jax.jacfwd(mean, 1)(jnp.zeros(d), jnp.zeros(dv))
        o['v_cov'] = -jnp.linalg.inv(jax.hessian(h)(v1, u1, v1))
        o['v_norm'] = h(mean(u1, v1), u1, v1)
        return o

    for k, v in jax.lax.map(lambda e: at(*e), (jnp.arange(K), jnp.asarray(ts)[:-1])).items():
        res[f'{prefix}_{k}'] = np.asarray(v)
    if init_sampler is not None:
        base = init_sampler(key, jnp.zeros(dv), n)
        res[f'{prefix}_i_off'], res[f'{prefix}_i_cov'] = base.mean(0), np.cov(np.asarray(base).T).reshape(d, d)
        b4 = init_sampler(key, jnp.zeros(dv), 4)
        res[f'{prefix}_i_Av'] = np.stack([(init_sampler(key, e, 4) - b4).mean(0) for e in eye_v], 1)
    res[f'{prefix}_ts'] = np.asarray(ts)


d = int(args[args.index('--d') + 1])
for name in ('gibbs_kernel', 'pmcmc_kernel', 'bootstrap_filter'):
    if name in seen:
        b = seen[name]
        lik = b.get('likelihood_logpdf', b.get('measurement_cond_pdf'))
        model_of(name, d, d, b['ts'], b.get('transition_sampler'), b.get('transition_logpdf'), lik,
                 b.get('init_sampler', b.get('ref_sampler')))
        for k in ('nparticles', 'explicit_backward', 'explicit_final', 'marg_y', 'delta', 'log'):
            if k in b:
                res[f'{name}_{k}'] = np.asarray(b[k])
        if 'fwd_sampler' in b:
            # the forward noising of the joint state: affine in (x0, y0), sampled at the terminal time
            f = b['fwd_sampler']
            m = 6_000
            x0, y0 = jax.random.normal(jax.random.fold_in(key, 11), (2, m, d))
            ks = jax.random.split(jax.random.fold_in(key, 12), m)
            path = jax.lax.map(lambda e: jax.vmap(lambda k_, x, y: f(k_, x, y)[jnp.array([0, -1])])(*e),
                               (ks.reshape(20, -1, 2), x0.reshape(20, -1, d), y0.reshape(20, -1, d)))
            path = np.asarray(path).reshape(m, 2, 2 * d)
            res[f'{name}_fwd_x'], res[f'{name}_fwd_z'] = np.concatenate([x0, y0], 1), path
        if 'fwd_ys_sampler' in b:
            f = b['fwd_ys_sampler']
            m = 6_000
            y0 = jax.random.normal(jax.random.fold_in(key, 11), (m, d))
            ks = jax.random.split(jax.random.fold_in(key, 12), m)
            path = jax.lax.map(lambda e: jax.vmap(lambda k_, y: f(k_, y)[jnp.array([0, -1])])(*e),
                               (ks.reshape(20, -1, 2), y0.reshape(20, -1, d)))
            res[f'{name}_fwdy_x'], res[f'{name}_fwdy_z'] = np.asarray(y0), np.asarray(path).reshape(m, 2, d)
if 'twisted_smc' in seen:
    b = seen['twisted_smc']
    ts = b['ts']
    names = list(inspect.signature(fbs.samplers.smc.twisted_smc).parameters)
    init, trans, twist, prop, prop_logpdf = [b[n] for n in names[3:8]]
    base = init(key, n)
    res['tw_i_off'], res['tw_i_cov'] = base.mean(0), np.cov(np.asarray(base).T)
    u1 = jax.random.normal(jax.random.fold_in(key, 3), (d,))
    yy = jax.random.normal(jax.random.fold_in(key, 4), (d,))
    npart = b['nparticles']

    def at(k, t):
        o = {}
        g = lambda x, u: trans(x[None], u[None], t)[0]
        mean = lambda u: -jnp.linalg.solve(jax.hessian(g)(u1, u), jax.grad(g)(jnp.zeros(d), u))
        o['off'], o['A'] = mean(jnp.zeros(d)), jax.jacfwd(mean)(jnp.zeros(d))
        o['cov'], o['norm'] = -jnp.linalg.inv(jax.hessian(g)(u1, u1)), g(mean(u1), u1)
        h = lambda x, u: prop_logpdf(x[None], u[None], t, yy)[0]
        meanh = lambda u: -jnp.linalg.solve(jax.hessian(h)(u1, u), jax.grad(h)(jnp.zeros(d), u))
        o['p_mean'], o['p_cov'], o['p_norm'] = meanh(u1), -jnp.linalg.inv(jax.hessian(h)(u1, u1)), h(meanh(u1), u1)
        m = max(1, 4000 // npart)
        xs = jax.vmap(lambda kk: prop(kk, jnp.broadcast_to(u1, (npart, d)), t, yy))(
            jax.random.split(jax.random.fold_in(key, k), m)).reshape(-1, d)
        o['ps_mean'], o['ps_cov'] = xs.mean(0), jnp.cov(xs, rowvar=False).reshape(d, d)
        return o

    for k, v in jax.lax.map(lambda e: at(*e), (jnp.arange(len(ts) - 1), jnp.asarray(ts)[:-1])).items():
        res[f'tw_{k}'] = np.asarray(v)
    res['tw_ts'] = np.asarray(ts)
    w = lambda x: twist(yy, x[None], ts[-1])[0]
    res['tw_y'] = np.asarray(yy)
    res['tw_H'], res['tw_g'] = np.asarray(jax.hessian(w)(u1)), np.asarray(jax.grad(w)(jnp.zeros(d)))
    res['tw_nparticles'] = npart
if 'first' in em and np.shape(em['first']['x0'])[-1] == d and all(not isinstance(t, jax.core.Tracer) for t in em['first']['ts']):
    b = em['first']
    ts = np.asarray(b['ts'])
    batch = np.shape(b['x0'])[:-1]
    f = lambda u, t: jnp.reshape(b['drift'](jnp.broadcast_to(u, (*batch, d)), t), (-1, d))[0]
    g = lambda t: jax.vmap(lambda u: f(u, t))(jnp.concatenate([jnp.zeros((1, d)), jnp.eye(d), 2 * jnp.ones((1, d))]))
    res['em_ts'], res['em_drift'] = ts, np.asarray(jax.lax.map(g, jnp.asarray(ts)[:-1]))
    res['em_dispersion'] = np.asarray(jax.lax.map(lambda t: jnp.asarray(b['dispersion'](t)), jnp.asarray(ts)[:-1]))
    res['em_starts'] = np.asarray(em_starts).reshape(-1, d)
res['observed_y'] = (np.unique(np.array(observed_y).reshape(len(observed_y), -1), axis=0) if observed_y
                     else np.zeros((0, d)))
np.savez(out, **{k: np.asarray(v) for k, v in res.items()})
