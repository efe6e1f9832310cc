"""C25: numerical and memory sanitizers (checkify: NaN, division by zero, out-of-bounds indices) on the whole sampling API under stress."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib.core import *
import jax
import jax.numpy as jnp
from jax.experimental import checkify

# jnp.insert, jnp.setdiff1d and jnp.nonzero (and what is built on it) scatter out of bounds on purpose: equivalents without that, so that the
# sanitizer sees the library's own indexing
import jax._src.numpy.lax_numpy as _np
_insert, _setdiff1d, _nonzero = jnp.insert, jnp.setdiff1d, jnp.nonzero


def insert(arr, obj, values, axis=None):
    if axis is not None and isinstance(obj, int) and jnp.shape(values) == jnp.shape(arr)[:axis] + jnp.shape(arr)[axis + 1:]:
        obj = obj + arr.shape[axis] if obj < 0 else obj
        a, b = jnp.split(arr, [obj], axis=axis)
        return jnp.concatenate([a, jnp.expand_dims(jnp.asarray(values, arr.dtype), axis), b], axis=axis)
    return _insert(arr, obj, values, axis)


def setdiff1d(a, b, assume_unique=False, size=None, fill_value=None, **kw):
    if size is None or fill_value is not None or kw:
        return _setdiff1d(a, b, assume_unique=assume_unique, size=size, fill_value=fill_value, **kw)
    a = jnp.sort(jnp.ravel(a))
    big = jnp.iinfo(a.dtype).max
    gone = (a[:, None] == jnp.ravel(b)).any(1) | jnp.concatenate([jnp.array([False]), (a[1:] == a[:-1]) & (not assume_unique)])
    return jnp.sort(jnp.where(gone, big, a))[:size]


def nonzero(a, *, size=None, fill_value=None):
    if size is None or fill_value is not None:
        return _nonzero(a, size=size, fill_value=fill_value)
    m = jnp.ravel(a) != 0
    at = jnp.argsort(~m)[:size]
    at = jnp.where(jnp.arange(size) < m.sum(), at, 0)
    return jnp.unravel_index(at, jnp.shape(a))


jnp.insert, jnp.setdiff1d, jnp.nonzero, _np.nonzero = insert, setdiff1d, nonzero, nonzero
from lib.api import catalogue, STATEFUL
from fbs.samplers import multinomial, stratified, systematic, killing, bootstrap_filter
from fbs.samplers.smc import pmcmc_filter_step
import fbs.samplers.csmc.resamplings as cond
from fbs.samplers.gibbs import force_move
from fbs.samplers.csmc.csmc import normalise, barker_move

ERRORS = checkify.index_checks | checkify.nan_checks | checkify.div_checks


def finite(out):
    return all(np.isfinite(np.asarray(x)).all() for x in jax.tree_util.tree_leaves(out))


def sanitized(c, nm, f, nkeys=16, errors=ERRORS, **data):
    keys = jax.random.split(c.key(), nkeys)
    err, out = jax.jit(checkify.checkify(lambda ks: jax.lax.map(f, ks), errors=errors))(keys)
    m = err.get()
    c.ev('sanitized_runs', nkeys)
    c.expect(m is None, 'sanitizer report: ' + (m or '').split('\n')[0][:200], call=nm, **data)
    c.expect(finite(out), 'result is not finite', call=nm, **data)
    return out


PROFILES = ((1., 0.), (300., 0.), (1., -1e4), (1., 3e3), (1e-6, 0.))
WEIGHTED = ('filter', 'pmcmc', 'twisted', 'csmc', 'smoother', 'backward', 'gibbs')


def workloads(c):
    i, m = c.part
    rng = np.random.default_rng([SEED, 25])
    K, n, d = int(rng.integers(3, 6)), int(rng.integers(3, 9)), int(rng.integers(1, 4))
    jobs = []
    for j, (scale, off) in enumerate(PROFILES):
        C = catalogue(np.random.default_rng([SEED, j]), K=K, n=n, d=d, scale=scale, offset=off)
        for nm, f in C.items():
            if nm in STATEFUL or (j and nm.split()[0] not in WEIGHTED) or (j and not c.thorough and rng.uniform() < .75):
                continue
            jobs.append((nm, scale, off, f))
    for nm, scale, off, f in jobs[i::m]:
        c.case('workload', {'call': nm, 'scale': scale, 'offset': off})
        sanitized(c, nm, f, 16 if not c.thorough else 64, scale=scale, offset=off, K=K, n=n, d=d)


def small(c):
    """the smallest legal problems: one step, one or two particles"""
    for K, n in ((1, 3), (1, 4), (2, 3)):
        C = catalogue(c.rng, K=K, n=n, d=1)
        for nm, f in C.items():
            if nm.split()[0] in ('filter', 'csmc', 'smoother', 'gibbs', 'pmcmc', 'twisted') and (c.thorough or c.rng.uniform() < .12):
                c.case('small', {'call': nm, 'K': K, 'n': n})
                sanitized(c, nm, f, 8, K=K, n=n)


def weights(c):
    """extreme but legal weights"""
    n = 6
    W = {'one-hot first': np.eye(n)[0], 'one-hot last': np.eye(n)[-1], 'uniform': np.full(n, 1 / n), 'half zero': np.array([0, 0, 0, 1, 1, 1]) / 3,
         'tiny': np.array([1 - 5e-7, 1e-7, 1e-7, 1e-7, 1e-7, 1e-7]), 'denormal': np.array([1., 1e-40, 1e-40, 0, 0, 0]), 'spread': 10. ** -np.arange(0, 12, 2)}
    S = {'stratified': stratified, 'systematic': systematic, 'multinomial': multinomial, 'killing': killing}
    S.update({f'cond {k} {b}': (lambda w, key, k=k, b=b: getattr(cond, k)(key, w, 3, 2, b)) for k in ('multinomial', 'killing') for b in (True, False)})
    S['cond systematic'] = lambda w, key: cond.systematic(key, w, conditional=False)
    S['barker'] = lambda w, key: barker_move(key, w)
    jobs = {nm: jax.jit(checkify.checkify(lambda w, ks, f=f: jax.lax.map(lambda k: f(w, k), ks), errors=ERRORS)) for nm, f in S.items()}
    fm = jax.jit(lambda w, k, ks: jax.lax.map(lambda key: force_move(key, w, k), ks))
    nz = jax.jit(checkify.checkify(lambda l: (normalise(l), normalise(l, log_space=True)), errors=ERRORS))
    for wn, w in W.items():
        w = jnp.asarray(w / w.sum(), jnp.float32)
        for nm, g in jobs.items():
            if nm.startswith('cond') and nm.endswith('True') and not w[3] > 0:
                continue   # conditioned on an event of probability zero
            err, idx = g(w, jax.random.split(c.key(), 400))
            c.case('weights', {'scheme': nm, 'weights': wn})
            c.ev('sanitized_runs', 400)
            c.expect(err.get() is None, 'sanitizer report: ' + (err.get() or '').split('\n')[0][:200], call=nm, weights=w)
            idx = np.asarray(idx)
            if c.expect(idx.min() >= 0 and idx.max() < n, 'index out of range', call=nm, weights=w):
                c.expect((np.asarray(w)[idx] > 0).all(), 'a particle of zero weight is selected', call=nm, weights=w)
        for k in range(n):
            i, a = map(np.asarray, fm(w, k, jax.random.split(c.key(), 100)))
            c.ev('sanitized_runs', 100)
            c.expect(np.isfinite(a).all() and ((a >= 0) & (a <= 1)).all() and i.min() >= 0 and i.max() < n, 'forced move: probability and index', weights=w, k=k)
            c.expect(((np.asarray(w)[i] > 0) | (i == k)).all(), 'forced move to a particle of zero weight', weights=w, k=k)
        lw = jnp.log(w)
        for off in (0., 1e4, -1e4, 80.):
            err, (a, b) = nz(lw + off)
            c.expect(err.get() is None and finite(a), 'normalisation of log weights', weights=w, offset=off, report=err.get())
            c.close(np.asarray(a).sum(), 1., 'normalised weights sum to one', rtol=3e-3, atol=0, weights=w, offset=off)


def impossible(c):
    """impossible particles: the likelihood of half of the particles is zero at every step"""
    K, n, d = 4, 6, 2
    f32 = lambda x: jnp.asarray(x, jnp.float32)
    ts, vs = f32(np.linspace(0, 1, K + 1)), f32(c.rng.normal(size=(K + 1, d)))

    def trans(u, v, t, key):
        return .9 * u + jax.random.normal(key, u.shape)

    def lik(v, u, vp, t):
        s = u.sum(-1)
        return jnp.where(s < jnp.median(s), -jnp.inf, -.5 * jnp.sum((v - u) ** 2, -1))

    init = lambda key, v0, m: jax.random.normal(key, (m, d))
    for nm, r in (('stratified', stratified), ('systematic', systematic), ('multinomial', multinomial), ('killing', killing)):
        c.case('impossible', {'resampler': nm})
        sanitized(c, f'filter {nm}', lambda key: bootstrap_filter(trans, lik, vs, ts, init, key, n, r, True, False), 64)
        sanitized(c, f'filter {nm} (densities)', lambda key: bootstrap_filter(trans, lambda *a: jnp.exp(lik(*a)), vs, ts, init, key, n, r, False, False), 64)
        sanitized(c, f'pmcmc filter {nm}', lambda key: pmcmc_filter_step(key, vs, init(key, None, n), ts, trans, lik, r, n), 64)


def chains(c):
    """what a kernel returns is a legal input of the next iteration: trajectories and indices fed back under the sanitizer"""
    from fbs.samplers import gibbs_kernel
    from fbs.samplers.csmc.csmc import csmc_kernel
    from fbs.sdes import make_linear_sde, StationaryConstLinearSDE
    f32 = lambda x: jnp.asarray(x, jnp.float32)
    for K, n, d in ((3, 4, 2), (5, 2, 1)):
        ts, vs, us = f32(np.linspace(0, 1, K + 1)), f32(c.rng.normal(size=(K + 1, d))), f32(c.rng.normal(size=(K + 1, d)))
        bs = jnp.asarray(c.rng.integers(0, n, K + 1))
        sde = StationaryConstLinearSDE(-.5, 1.)
        sim = make_linear_sde(sde)[2]
        trans = lambda u, v, t, key: .9 * u + .3 * jax.random.normal(key, u.shape)
        tlog = lambda u, up, v, t: jnp.sum(jax.scipy.stats.norm.logpdf(u, .9 * up, .3), -1)
        lik = lambda v, u, vp, t: jnp.sum(jax.scipy.stats.norm.logpdf(v, .5 * u + .2 * vp, 1.), -1)
        steps = {}
        for eb in (True, False):
            steps[f'gibbs {eb}'] = n, (lambda key, us, bs, eb=eb: gibbs_kernel(
                key, us[-1], vs[0], us, bs, ts, lambda k, x, y, **kw: sim(k, jnp.concatenate([x, y], -1), ts), sde, lambda xy, **kw: (xy[..., :d], xy[..., d:]),
                n, trans, tlog, lik, explicit_backward=eb)[1:3])
        for nm in ('multinomial', 'killing'):
            for b in (True, False):
                steps[f'csmc {nm} {b}'] = n + 1, (lambda key, us, bs, nm=nm, b=b: csmc_kernel(
                    key, us, bs, vs, ts, lambda k, m: jax.random.normal(k, (m, d)), lambda v0, u, v1, **kw: jnp.sum(u, -1) * .1, trans, tlog, lik,
                    getattr(cond, nm), n, backward=b))
        for nm, (size, step) in steps.items():
            def chain(key):
                return jax.lax.scan(lambda s, k: (lambda o: (o, o))(step(k, *s)), (us, bs), jax.random.split(key, 40))[1]
            _, b = sanitized(c, 'chain of ' + nm, chain, 8, K=K, n=n, d=d)
            b = np.asarray(b)
            c.case('chain', {'call': nm, 'K': K, 'n': n})
            c.expect(b.min() >= 0 and b.max() < size, 'a returned index is no particle of the system', call=nm, low=int(b.min()), high=int(b.max()), size=size)


def gradients(c):
    """the training losses have finite gradients"""
    from fbs.sdes import make_linear_sde_law_loss, StationaryConstLinearSDE, StationaryLinLinearSDE
    from fbs.sdes.linear import StationaryExpLinearSDE, make_ou_score_matching_loss
    from fbs.dsb.base import ipf_loss_cont, ipf_loss_cont_v, ipf_loss_disc
    nn = lambda x, t, p: jnp.tanh(p[0] * x) + p[1] * (jnp.reshape(t, (-1, *(1,) * (x.ndim - 1))) if jnp.ndim(t) else t)
    x0s, p = jnp.asarray(c.rng.normal(size=(5, 3)), jnp.float32), jnp.asarray([.4, -.3], jnp.float32)
    ts = jnp.linspace(0., 1., 6)
    L = {'ou': lambda p, key: make_ou_score_matching_loss(-.5, 1., nn, 0., 2., 5, False)(p, key, x0s),
         'ipf cont': lambda p, key: ipf_loss_cont(key, p, p * 2, x0s, ts, nn, nn, lambda t: 1.),
         'ipf cont v': lambda p, key: ipf_loss_cont_v(key, p, p * 2, x0s, ts[::-1], nn, nn, lambda t: 1.),
         'ipf disc': lambda p, key: ipf_loss_disc(p, p * 2, x0s, ts, jnp.diff(ts), nn, nn, key)}
    for sn, s in (('const', StationaryConstLinearSDE(-.5, 1.)), ('lin', StationaryLinLinearSDE(.02, 4., 0., 2.)), ('exp', StationaryExpLinearSDE(-.5, 1., 1., 1.))):
        for lt, sv in (('score', False), ('score', True), ('ipf', False), ('ipf-score', False)):
            for rt in (True, False):
                L[f'{sn} {lt} {sv} {rt}'] = lambda p, key, s=s, lt=lt, sv=sv, rt=rt: make_linear_sde_law_loss(s, nn, 0., 2., 5, rt, lt, sv)(p, key, x0s)
    for nm, f in L.items():
        c.case('gradient', {'loss': nm})
        keys = jax.random.split(c.key(), 50)
        v, g = jax.jit(lambda ks: jax.lax.map(lambda k: jax.value_and_grad(f)(p, k), ks))(keys)
        c.ev('gradients', 50)
        c.expect(finite(v) and finite(g), 'loss or gradient is not finite', loss=nm)


run_sections(
    Check('C25', 'Catalogue of public sampling calls x stress profiles of the log-likelihood (scales 1e-6 to 300, offsets -1e4 to 3e3), extreme weights, '
          'impossible particles, smallest sizes, under the NaN / division / out-of-bounds sanitizer; non-trivial = distinct call and profile',
          ['at least one particle has positive weight']),
    [*parts(workloads, 5), weights, small, impossible, chains, gradients], sanitized_runs=1000, gradients=100)
