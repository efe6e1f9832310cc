"""C05: unbiasedness of the particle estimates of the bootstrap filter and of the pMCMC filter, on exactly solvable
finite models."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib.core import *
import jax
import jax.numpy as jnp
from lib.monitor import *
from fbs.samplers import bootstrap_filter
from fbs.samplers.smc import pmcmc_filter_step
from fbs.samplers import resampling as rs

RES = {'stratified': rs.stratified, 'systematic': rs.systematic, 'multinomial': rs.multinomial, 'killing': rs.killing}


def exact_terms(m, vs):
    """unnormalised filter masses gamma_k(u) = p(v_1..v_k, u_k | v_0) for k = 0..K"""
    out = [m.p0[:, vs[0]]]
    for k in range(m.K):
        a = out[-1] * m.g[k, :, vs[k], vs[k + 1]]
        out.append(a @ m.f[k, :, vs[k]])
    return out


def models(c):
    shapes = [dict(K=3, Su=2, Sv=2, conc=.5), dict(K=2, Su=3, Sv=2, conc=.4), dict(K=1, Su=3, Sv=3, conc=.5)]
    if c.thorough:
        shapes += [dict(K=5, Su=2, Sv=2, conc=.3), dict(K=4, Su=3, Sv=3, conc=.7), dict(K=6, Su=2, Sv=3, conc=1.)]
    for s in shapes:
        m = Finite(c.rng, **s)
        yield s, m, c.rng.integers(0, m.Sv, m.K + 1)


def bootstrap(c):
    for s, m, vs in models(c):
        ex = exact_terms(m, vs)
        Z = ex[-1].sum()
        vsj, tsj = jnp.asarray(vs, jnp.float32), jnp.asarray(m.ts, jnp.float32)
        init = lambda key, v0, n: m.init_given(vs[0])(key, n)
        for n, res, log in ((1, 'stratified', True), (2, 'killing', True), (3, 'systematic', False), (5, 'multinomial', True),
                            (8, 'stratified', False)) if c.thorough else ((2, 'stratified', True), (4, 'killing', False)):
            def one(key):
                lik = m.lik if log else (lambda *a, **kw: jnp.exp(m.lik(*a, **kw)))
                us, nell = bootstrap_filter(m.transition_sampler, lik, vsj, tsj, init, key, n, RES[res], log=log, return_last=True)
                z = jnp.exp(-nell)
                return jnp.concatenate([z[None], z * jax.nn.one_hot(m.ix(us), m.Su).mean(0)]) / Z

            c.case('bootstrap', {'model': s, 'vs': vs, 'n': n, 'res': res, 'log': log})
            c.ev('filter_laws')
            c.mean(f'bootstrap filter: E[exp(-nell) mean(phi)] (n={n}, {res})', vdraw(one), np.concatenate([[1.], ex[-1] / Z]),
                   R=200_000 if not c.thorough else 1_000_000, abs_tol=3e-6, model=s, vs=vs, n=n, res=res)


def bootstrap_path(c):
    """The first resampled generation, one-step exact: E[z_1 mean(phi(us_1))] and the path version return_last=False."""
    for s, m, vs in models(c):
        ex = exact_terms(m, vs)
        vsj, tsj = jnp.asarray(vs, jnp.float32), jnp.asarray(m.ts, jnp.float32)
        n = 3

        def one(key):
            us, nell = bootstrap_filter(m.transition_sampler, m.lik, vsj, tsj, lambda k, v0, n_: m.init_given(vs[0])(k, n_), key, n,
                                        rs.stratified, log=True, return_last=False)
            # likelihood increments recomputed from the returned particles
            zs = [jnp.ones(())]
            for k in range(m.K):
                zs.append(zs[-1] * jnp.exp(m.lik(vsj[k + 1], us[k], vsj[k], tsj[k])).mean())
            return jnp.concatenate([zs[k] * jax.nn.one_hot(m.ix(us[k]), m.Su).mean(0) / ex[k].sum() for k in range(m.K + 1)])

        c.case('bootstrap path', {'model': s, 'vs': vs})
        c.ev('filter_laws')
        c.mean('bootstrap filter path: unnormalised filter at every step', vdraw(one),
               np.concatenate([e / e.sum() for e in ex]), R=200_000, abs_tol=3e-6, model=s, vs=vs)


def pmcmc_filter(c):
    for s, m, vs in models(c):
        ex = exact_terms(m, vs)
        Z = ex[-1].sum()
        vsj, tsj = jnp.asarray(vs, jnp.float32), jnp.asarray(m.ts, jnp.float32)
        for n, res in ((1, 'stratified'), (2, 'killing'), (3, 'systematic'), (6, 'multinomial')) if c.thorough else (
                (2, 'stratified'), (4, 'killing')):
            def one(key):
                k0, k1 = jax.random.split(key)
                u0 = m.init_given(vs[0])(k0, n)
                us, ell = pmcmc_filter_step(k1, vsj, u0, tsj, m.transition_sampler, m.lik, RES[res], n)
                z = jnp.exp(ell)
                return jnp.concatenate([z[None], z * jax.nn.one_hot(m.ix(us), m.Su).mean(0)]) / Z

            c.case('pmcmc filter', {'model': s, 'vs': vs, 'n': n, 'res': res})
            c.ev('filter_laws')
            c.mean(f'pMCMC filter: E[exp(log_ell) mean(phi)] (n={n}, {res})', vdraw(one), np.concatenate([[1.], ex[-1] / Z]),
                   R=200_000 if not c.thorough else 1_000_000, abs_tol=3e-6, model=s, vs=vs, n=n, res=res)


def more_particles(c):
    """unbiased with many particles, too"""
    for (s, m, vs), n in zip(models(c), (64, 150, 33)):
        ex = exact_terms(m, vs)
        Z = ex[-1].sum()
        vsj, tsj = jnp.asarray(vs, jnp.float32), jnp.asarray(m.ts, jnp.float32)
        for res in ('stratified', 'killing', 'systematic', 'multinomial')[:4 if c.thorough else 2]:
            def boot(key):
                us, nell = bootstrap_filter(m.transition_sampler, m.lik, vsj, tsj, lambda k, v0, n_: m.init_given(vs[0])(k, n_), key, n, RES[res], log=True, return_last=True)
                z = jnp.exp(-nell)
                return jnp.concatenate([z[None], z * jax.nn.one_hot(m.ix(us), m.Su).mean(0)]) / Z

            def pm(key):
                k0, k1 = jax.random.split(key)
                us, ell = pmcmc_filter_step(k1, vsj, m.init_given(vs[0])(k0, n), tsj, m.transition_sampler, m.lik, RES[res], n)
                z = jnp.exp(ell)
                return jnp.concatenate([z[None], z * jax.nn.one_hot(m.ix(us), m.Su).mean(0)]) / Z
            for nm, one in (('bootstrap filter', boot), ('pMCMC filter', pm)):
                c.case('more particles', {'filter': nm, 'model': s, 'vs': vs, 'n': n, 'res': res})
                c.ev('filter_laws')
                c.mean(f'{nm}: E[Z mean(phi)] (n={n}, {res})', vdraw(one), np.concatenate([[1.], ex[-1] / Z]), R=20_000, abs_tol=3e-6, model=s, vs=vs, n=n, res=res)


def consistency(c):
    """Many particles: a single run is already close to the exact filter and likelihood."""
    for s, m, vs in models(c):
        ex = exact_terms(m, vs)
        vsj, tsj = jnp.asarray(vs, jnp.float32), jnp.asarray(m.ts, jnp.float32)
        n = 20_000
        for res in RES:
            us, nell = bootstrap_filter(m.transition_sampler, m.lik, vsj, tsj, lambda k, v0, n_: m.init_given(vs[0])(k, n_), c.key(), n,
                                        RES[res], log=True, return_last=True)
            us2, ell2 = pmcmc_filter_step(c.key(), vsj, m.init_given(vs[0])(c.key(), n), tsj, m.transition_sampler, m.lik, RES[res], n)
            want = ex[-1] / ex[-1].sum()
            c.case('consistency', {'model': s, 'vs': vs, 'res': res}, n=2)
            for nm, u, l in (('bootstrap', us, -nell), ('pmcmc', us2, ell2)):
                emp = np.bincount(np.asarray(m.ix(u)), minlength=m.Su) / n
                c.close(emp, want, f'{nm} filter distribution with {n} particles ({res})', atol=.06, rtol=0, model=s, vs=vs)
                c.close(l, np.log(ex[-1].sum()), f'{nm} log likelihood with {n} particles ({res})', atol=.15, rtol=0, model=s, vs=vs)


run_sections(
    Check('C05', 'Random finite models with time-indexed tables x resampler x n x log flag; oracle: exact forward recursion; '
          'non-trivial = distinct (model, measurements, n, resampler)',
          ['resampling schemes are unbiased (C01)']),
    [bootstrap, bootstrap_path, pmcmc_filter, more_particles, consistency], filter_laws=4, mean_draws=1000)
