"""C04: the bootstrap filter as an observable trace: what the model callbacks and the resampler are given, and how the
returned particles and the negative log likelihood follow from it."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib.core import *
import contextlib
import jax
jax.config.update('jax_enable_x64', True)
import jax.numpy as jnp
from lib.monitor import *
from fbs.samplers import bootstrap_filter
from fbs.samplers import resampling as rs

RES = {'stratified': rs.stratified, 'systematic': rs.systematic, 'multinomial': rs.multinomial, 'killing': rs.killing,
       'reverse': lambda w, key: jnp.arange(w.shape[0])[::-1]}


def nell_of(m, path):
    n = path.shape[1]
    return -sum(lse(m.h_lik(np, m.vs[k + 1], path[k], m.vs[k], m.ts[k])) - np.log(n) for k in range(m.K))


def check_trace(c, m, path, nell, ev, n, d, log=True):
    K, val = m.K, lambda x: x.reshape(*x.shape[:2], -1, 2)[:, :, 0, 0]
    par = path.reshape(K + 1, n, -1, 2)[:, :, 0, 1]
    v = val(path)
    init, trans, lik, res = (by_name(ev, e) for e in ('init', 'trans', 'lik', 'resample'))
    c.ev('callback_events', len(ev))
    ok = c.expect(len(init) == 1, 'the initial sampler is called once', calls=len(init), **d)
    if ok:
        c.close(path[0], init[0]['out'], 'initial particles are the draws of the initial sampler', **d)
        c.close(init[0]['v'], m.vs[0], 'initial sampler must be given v_0', **d)
        c.expect(int(init[0]['n']) == n, 'number of particles', **d)
    for name, evs in (('transition sampler', trans), ('measurement density', lik)):
        seen = {}
        for e in evs:
            k = m.time_index(e['t'])
            seen.setdefault(k, []).append(e)
            c.expect(bool(e['kw']), f'{name}: extra keyword arguments are forwarded', **d)
        c.expect(sorted(seen) == list(range(K)), f'{name}: evaluated at t_0 ... t_(K-1) exactly', got=sorted(seen), **d)
        for k in range(K):
            for e in seen.get(k, []):
                vp, us = (e['v'], e['us']) if name[0] == 't' else (e['vp'], e['us'])
                c.close(vp, m.vs[k], f'{name} at t_k: previous measurement must be v_k', k=k, **d)
                src = us.reshape(us.shape[0], -1, 2)[:, 0, 0]
                c.expect(members(src, v[k]), f'{name}: conditioned on particles that are not those of step k', k=k, **d)
                if name[0] == 'm':
                    c.close(e['v'], m.vs[k + 1], 'measurement density: measurement must be v_(k+1)', k=k, **d)
                else:
                    out = e['out'].reshape(e['out'].shape[0], -1, 2)[:, 0]
                    c.expect(members(np.stack([v[k + 1], par[k + 1]], -1), out),
                             'returned particles are not draws of the transition sampler', k=k, **d)
                    c.ev('particles_traced', n)
    # the resampler is given the normalised weights, and its indices decide the parents
    c.expect(len(res) == K, 'one resampling per step', got=len(res), **d)
    left = list(res)
    for k in range(K):
        w = norm_w(m.h_lik(np, m.vs[k + 1], path[k], m.vs[k], m.ts[k]))
        hit = [e for e in left if e['w'].shape == w.shape and np.allclose(e['w'], w, rtol=1e-6, atol=1e-290)]
        if c.expect(len(hit) >= 1, 'resampling weights are not the normalised measurement densities', k=k, want=w,
                    got=[e['w'] for e in left][:3], **d):
            good = [e for e in hit if same(v[k][e['idx']], par[k + 1])]
            c.expect(len(good) >= 1, 'particles are not resampled by the returned indices', k=k, **d)
    c.close(nell, nell_of(m, path), 'negative log likelihood', rtol=1e-9, atol=1e-9, **d)
    keys_distinct(c, ev, 'bootstrap filter', **d)


def traces(c):
    configs = [dict(K=3, n=4, shape=(), vshape=(), res='stratified'), dict(K=1, n=3, shape=(), vshape=(2,), res='killing'),
               dict(K=5, n=7, shape=(3,), vshape=(2,), res='multinomial', kw={'extra': 3.}),
               dict(K=4, n=5, shape=(2, 2), vshape=(2, 1), res='systematic', log=False),
               dict(K=4, n=6, shape=(), vshape=(), res='reverse', kw={'mask': 1.}), dict(K=2, n=1, shape=(), vshape=(), res='stratified'),
               dict(K=3, n=8, shape=(), vshape=(), res='stratified', log=False, scale=30.),
               dict(K=3, n=40, shape=(), vshape=(), res='multinomial', dead=.6), dict(K=3, n=9, shape=(2,), vshape=(), res='stratified', log=False, dead=.5, offset=-120.),
               dict(K=3, n=30, shape=(), vshape=(), res='killing', scale=60., offset=500., dead=.2)]
    if c.thorough:
        configs += [dict(K=int(c.rng.integers(1, 12)), n=int(c.rng.integers(1, 40)), shape=[(), (2,), (2, 1, 3)][c.rng.integers(3)],
                         vshape=[(), (3,), (2, 2)][c.rng.integers(3)], res=c.rng.choice(list(RES)), log=bool(c.rng.integers(2)),
                         scale=float(c.rng.choice([.1, 1., 20.])), offset=float(c.rng.choice([0., 0., -90., 60.])), dead=float(c.rng.choice([0., .5, .9]))) for _ in range(40)]
    for cfg in configs:
        m = Particles(c.rng, cfg['K'], cfg['shape'], cfg['vshape'], cfg.get('kw'), scale=cfg.get('scale', 1.), offset=cfg.get('offset', 0.), dead=cfg.get('dead', 0.))
        n, log = cfg['n'], cfg.get('log', True)
        vs, ts = jnp.asarray(m.vs), jnp.asarray(m.ts)

        def run(key, return_last=False):
            return bootstrap_filter(m.transition_sampler, m.lik if log else m.lik_pdf, vs, ts, m.init_sampler, key, n,
                                    m.wrap_resampling(RES[cfg['res']]), log=log, return_last=return_last, **m.kw)

        jrun = jax.jit(run, static_argnums=1)
        for rep in range(3 if c.thorough else 2):
            key = c.key()
            d = dict(config=cfg, key=np.asarray(key))
            path, nell = jrun(key, False)
            ev = m.rec.collect()
            path, nell = np.asarray(path), np.asarray(nell)
            c.case('jit trace', d)
            if not c.expect(path.shape == (m.K + 1, n, *m.shape, 2) and nell.shape == (), 'output shapes', got=path.shape, **d):
                continue
            check_trace(c, m, path, nell, ev, n, d)
            last, nell1 = jrun(key, True)
            m.rec.collect()
            c.close(last, path[-1], 'return_last=True returns the last particles of the path', rtol=1e-12, **d)
            c.close(nell1, nell, 'return_last does not change the likelihood', rtol=1e-12, **d)
            if rep == 0:
                with jax.disable_jit():
                    pe, ne = run(key, False)
                ev = m.rec.collect()
                c.case('eager trace', d)
                check_trace(c, m, np.asarray(pe), np.asarray(ne), ev, n, d)
                c.close(pe, path, 'eager and jitted executions agree', rtol=1e-8, atol=1e-10, **d)


def metamorphic(c):
    """Log-density shifts only shift the likelihood; log=False is the same filter; jit / vmap transparency; extreme
    log densities stay finite."""
    for K, n in ((4, 16), (7, 5)):
        m = Particles(c.rng, K)
        m.rec.emit = lambda *a, **k: None
        vs, ts = jnp.asarray(m.vs), jnp.asarray(m.ts)
        cst = jnp.asarray(c.rng.normal(size=K) * 40.)

        def run(key, shift, log, res=rs.stratified):
            def lik(v, us, vp, t):
                k = jnp.argmin(jnp.abs(ts - t))
                l = m.h_lik(jnp, v, us, vp, t) + shift * cst[k]
                return l if log else jnp.exp(l)
            return bootstrap_filter(m.transition_sampler, lik, vs, ts, m.init_sampler, key, n, res, log=log, return_last=False)

        f = jax.jit(run, static_argnums=2)
        ks = jax.random.split(c.key(), 12)
        pv, nv = jax.jit(jax.vmap(lambda k: run(k, 0., True)))(ks)
        for r, key in enumerate(ks):
            d = dict(K=K, n=n, key=np.asarray(key))
            p0, n0 = f(key, 0., True)
            p1, n1 = f(key, 1., True)
            p2, n2 = f(key, 0., False)
            p3, n3 = f(key, -300., True)
            c.case('metamorphic', d, n=4)
            c.close(p1, p0, 'adding constants to the log densities must not change the particles', rtol=1e-8, **d)
            c.close(n1, n0 - cst.sum(), 'adding constants to the log densities shifts the likelihood', rtol=1e-8, atol=1e-7, **d)
            c.close(p2, p0, 'log=False is the same filter (particles)', rtol=1e-8, **d)
            c.close(n2, n0, 'log=False is the same filter (likelihood)', rtol=1e-8, atol=1e-8, **d)
            c.close(p3, p0, 'extreme log densities', rtol=1e-6, **d)
            c.close(n3, n0 + 300 * cst.sum(), 'extreme log densities (likelihood)', rtol=1e-7, atol=1e-6, **d)
            c.close(pv[r], p0, 'vmap over keys', rtol=1e-8, atol=1e-10, **d)
            c.close(nv[r], n0, 'vmap over keys (likelihood)', rtol=1e-8, **d)


run_sections(
    Check('C04', 'Random models (K, n, state / measurement shapes, resampler, log flag, kwargs) whose particles carry unique values '
          'and their parent; the trace of every callback is checked step by step; non-trivial = distinct configuration and key'),
    [traces, metamorphic], callback_events=100, particles_traced=50)
