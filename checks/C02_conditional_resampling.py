"""C02: conditional resampling (multinomial, killing) used by the conditional particle filters."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib.core import *
import itertools
import jax
import jax.numpy as jnp
from fbs.samplers.csmc import resamplings as crs

SCHEMES = {'multinomial': crs.multinomial, 'killing': crs.killing}
VC = {n: jax.jit(lambda ks, w, i, j, f=f: jax.vmap(lambda k: f(k, w, i, j, True))(ks)) for n, f in SCHEMES.items()}
VU = {n: jax.jit(lambda ks, w, i, j, f=f: jax.vmap(lambda k: f(k, w, i, j, False))(ks)) for n, f in SCHEMES.items()}


def slots_of(scheme, w):
    n = len(w)
    if scheme == 'multinomial':
        return np.tile(w, (n, 1))
    stay = w / w.max()
    return np.diag(stay) + (1 - stay)[:, None] * w[None, :]


def conditional_law(scheme, w, i, j):
    """Law of A given A_j = i where A is the unconditional scheme under a uniformly random rotation of its slots
    (the rotation is immaterial for multinomial)."""
    n = len(w)
    slot = slots_of(scheme, w)
    out = np.zeros(n ** n)
    for code, a in enumerate(itertools.product(range(n), repeat=n)):
        if a[j] != i:
            continue
        if scheme == 'multinomial':
            out[code] = np.prod([slot[m, a[m]] for m in range(n)])
        else:
            # a = roll(b, s): a[m] = b[(m - s) % n]
            out[code] = np.mean([np.prod([slot[(m - s) % n, a[m]] for m in range(n)]) for s in range(n)])
    return out / out.sum()


def joint_law(c):
    """Exact joint law of all the ancestors given the pinned one, every (i, j)."""
    vecs = [np.array([.5, .3, .2]), np.array([.05, .35, .6]), np.array([.3, .7]), c.rng.dirichlet(np.ones(3) * .7),
            np.array([.4, 0., .6])]
    if c.thorough:
        vecs += [c.rng.dirichlet(np.ones(4)), np.array([.1, .2, .3, .4]), np.full(3, 1 / 3)]
    else:
        vecs += [c.rng.dirichlet(np.ones(4))]
    for w in vecs:
        n = len(w)
        wj = jnp.asarray(w, jnp.float32)
        for name, f in SCHEMES.items():
            g = jax.jit(lambda ks, i, j: jax.vmap(
                lambda k: (f(k, wj, i, j, True) * n ** jnp.arange(n - 1, -1, -1)).sum())(ks))
            pairs = list(itertools.product(range(n), range(n)))
            if n == 4 and not c.thorough:
                pairs = [pairs[m] for m in c.rng.choice(16, 6, replace=False)]
            for i, j in pairs:
                if w[i] == 0:
                    continue
                c.case('joint law', {'scheme': name, 'w': w, 'i': i, 'j': j})
                c.law(f'conditional {name}', lambda key, R: g(jax.random.split(key, R), i, j),
                      conditional_law(name, w, i, j), R=150_000 if not c.thorough else 1_000_000,
                      scheme=name, weights=w, i=i, j=j)


def bayes_consistency(c):
    """i ~ w and j uniform: E[copies of m] must be n w_m as for an unconditional scheme."""
    for n in (6, 12):
        for conc in (1., .3):
            w = c.rng.dirichlet(np.full(n, conc))
            wj = jnp.asarray(w, jnp.float32)
            for name, f in SCHEMES.items():
                def one(k):
                    k1, k2, k3 = jax.random.split(k, 3)
                    i = jax.random.choice(k1, n, p=wj)
                    j = jax.random.randint(k2, (), 0, n)
                    a = f(k3, wj, i, j, True)
                    return jax.nn.one_hot(a, n).sum(0)

                c.case('bayes', {'scheme': name, 'w': w[:6], 'n': n})
                c.mean(f'conditional {name} copies', vdraw(one), n * w, R=60_000 if not c.thorough else 600_000,
                       abs_tol=2e-5, scheme=name, weights=w)


def pathwise(c):
    """Every call: the pinned slot, the range, no zero-weight particle, whatever i, j, n, dtype; traced and static indices
    agree; conditional=False ignores (i, j)."""
    for dtype in (np.float32, np.float64):
        jax.config.update('jax_enable_x64', dtype == np.float64)
        try:
            for n in (1, 2, 3, 7, 20, 100) + ((1000,) if c.thorough else ()):
                for kind in ('dirichlet', 'spiky', 'uniform', 'zeros', 'one-hot', 'tiny-ref'):
                    w = c.rng.dirichlet(np.full(n, .1 if kind == 'spiky' else 1.))
                    if kind == 'uniform':
                        w = np.full(n, 1 / n)
                    if kind == 'zeros' and n > 1:
                        w[c.rng.permutation(n)[:n // 2]] = 0
                        w /= w.sum()
                    if kind == 'one-hot':
                        w = np.eye(n)[c.rng.integers(n)]
                    i = int(np.argmin(np.where(w > 0, w, 2))) if kind == 'tiny-ref' else int(c.rng.choice(n, p=w))
                    wd = w.astype(dtype)
                    wj = jnp.asarray(wd)
                    B = 300 if c.thorough else 60
                    js = sorted({0, n - 1, int(c.rng.integers(n))})
                    for name, f in SCHEMES.items():
                        g = lambda ks, i, j: VC[name](ks, wj, i, j)
                        u = lambda ks, i, j: VU[name](ks, wj, i, j)
                        ks = jax.random.split(c.key(), B)
                        u0 = None
                        for j in js:
                            a = np.asarray(g(ks, i, j))
                            c.case(f'pathwise {np.dtype(dtype).name}',
                                   {'n': n, 'kind': kind, 'scheme': name, 'i': i, 'j': j, 'w': w[:5]}, n=B)
                            c.ev('conditional_calls', B)
                            d = dict(scheme=name, n=n, kind=kind, i=i, j=j, weights=wd)
                            if not c.expect(a.shape == (B, n), f'{name}: shape', shape=a.shape, **d):
                                continue
                            c.expect(np.all(a[:, j] == i), f'{name}: the ancestor at slot j is not i', **d)
                            c.expect(a.min() >= 0 and a.max() < n, f'{name}: index out of range', **d)
                            nz = int((wd[np.clip(a, 0, n - 1)] == 0).sum())
                            c.expect(nz <= (0 if dtype == np.float64 or n < 8 else 2),
                                     f'{name}: selects particles of zero weight', hits=nz, **d)
                            if kind == 'one-hot':
                                c.expect(np.all(a == i), f'{name}: one-hot', **d)
                            if kind not in ('dirichlet', 'zeros'):
                                continue
                            e = np.asarray(f(ks[3], wj, i, j, True))
                            c.expect(e[j] == i and e.shape == (n,), f'{name}: eager call', **d)
                            b = np.asarray(u(ks, i, j))
                            u0 = b if u0 is None else u0
                            c.expect(np.array_equal(b, u0), f'{name}: (i, j) matter although conditional=False', **d)
                        if kind == 'uniform' and name == 'killing':
                            j = js[-1]
                            a = np.asarray(g(ks, i, j))
                            c.expect(np.all(np.sort(a, 1) == np.arange(n)),
                                     'killing: uniform weights must keep every particle exactly once', n=n, i=i, j=j)
        finally:
            jax.config.update('jax_enable_x64', False)


def boundary_uniforms(c):
    """Very many calls, so that the uniforms hit the ends of their interval: particles of zero weight are never selected."""
    B, w = 1_000_000, jnp.asarray([0., .5, .5, 0.], jnp.float32)
    for name, f in SCHEMES.items():
        for j in (0, 2):
            g = jax.jit(jax.vmap(lambda k: (lambda a: ((a < 1) | (a > 2)).sum())(f(k, w, 1, j, True))))
            bad = 0
            for _ in range(40 if c.thorough else 8):
                bad += int(np.asarray(g(jax.random.split(c.key(), B))).sum())
                c.ev('conditional_calls', B)
            c.case('boundary uniforms', {'scheme': name, 'j': j}, n=B)
            c.expect(bad == 0, f'{name}: zero-weight particle selected at a boundary draw', scheme=name, weights=w, hits=bad)


run_sections(
    Check('C02', 'Weight vectors x (i, j) x scheme x dtype; the oracle is the enumerated law of the (randomly rotated) '
          'unconditional scheme given A_j = i; non-trivial = distinct (weights, i, j, scheme)',
          ['the reference particle i has positive weight', 'conditional systematic resampling is declared unimplemented']),
    [joint_law, bayes_consistency, pathwise, boundary_uniforms], conditional_calls=500, law_draws=1000)
