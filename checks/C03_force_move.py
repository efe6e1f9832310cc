"""C03: the forced-move selection of the final particle, and the weight normalisation it relies on."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib.core import *
import jax
import jax.numpy as jnp
from fbs.samplers.gibbs import force_move
from fbs.samplers.csmc.csmc import normalise

VF = jax.jit(jax.vmap(force_move, in_axes=(0, None, None)))


def kernel(w):
    """Exact transition matrix: Metropolised with proposal w_{-k} / (1 - w_k)."""
    n = len(w)
    P = np.zeros((n, n))
    for k in range(n):
        for i in range(n):
            if i != k and w[i] > 0 and w[k] < 1:
                P[k, i] = w[i] / (1 - w[k]) * (1. if w[i] >= 1 else min(1., (1 - w[k]) / (1 - w[i])))
        P[k, k] = 1 - P[k].sum()
    return P


def vectors(c, big=False):
    vs = [('pair', np.array([.4, .6])), ('pair-skew', np.array([.99, .01])), ('triple', np.array([.4, .5, .1])),
          ('dominant', np.array([.02, .95, .03])), ('uniform', np.full(4, .25)), ('zero', np.array([.3, 0., .7])),
          ('one-hot', np.array([0., 1., 0.])), ('near-one', np.array([1 - 2e-6, 1e-6, 1e-6])),
          ('single', np.array([1.])), ('rand', c.rng.dirichlet(np.ones(4))), ('spiky', c.rng.dirichlet(np.full(5, .3)))]
    if c.thorough:
        vs += [(f'rand{m}', c.rng.dirichlet(np.full(int(c.rng.integers(2, 8)), c.rng.choice([.2, 1., 5.])))) for m in range(20)]
    return vs


def law(c):
    for kind, w in vectors(c):
        P = kernel(w)
        assert np.abs(w @ P - w).max() < 1e-9, (w, P)  # the oracle itself is invariant
        wj = jnp.asarray(w, jnp.float32)
        for k in range(len(w)):
            probs = np.clip(P[k], 0, 1)
            c.case('law', {'kind': kind, 'w': w, 'k': k})
            c.law('forced move', lambda key, R: VF(jax.random.split(key, R), wj, k)[0], probs / probs.sum(),
                  R=300_000 if not c.thorough else 2_000_000, weights=w, k=k)


def reported_probability(c):
    """The second output is the probability that the index changes, for every key."""
    for dtype in (np.float32, np.float64):
        jax.config.update('jax_enable_x64', dtype == np.float64)
        try:
            extra = [('r%d' % m, c.rng.dirichlet(np.full(n, a))) for m, (n, a) in
                     enumerate([(2, 1.), (6, .3), (20, 1.), (50, .1), (200, 1.)])]
            for kind, w in vectors(c) + extra:
                P = kernel(w)
                for k in sorted({0, len(w) - 1, int(np.argmax(w)), int(np.argmin(w))}):
                    idx, alpha = VF(jax.random.split(c.key(), 64), jnp.asarray(w.astype(dtype)), k)
                    idx, alpha = np.asarray(idx), np.asarray(alpha)
                    c.ev('moves_observed', 64)
                    c.case(f'alpha {np.dtype(dtype).name}', {'kind': kind, 'k': k, 'w': w[:6]}, n=64)
                    d = dict(weights=w, k=k, dtype=np.dtype(dtype).name)
                    c.close(alpha, np.full(64, 1 - P[k, k]), 'acceptance probability', rtol=2e-3, atol=2e-5, **d)
                    c.expect(idx.min() >= 0 and idx.max() < len(w), 'index range', **d)
                    c.expect(np.all((w[idx] > 0) | (idx == k)), 'moved to a particle of zero weight', **d)
        finally:
            jax.config.update('jax_enable_x64', False)


def stationarity(c):
    """k ~ w, one move: the new index is again ~ w (the property the Gibbs kernel uses)."""
    for kind, w in vectors(c) + [('rand10', c.rng.dirichlet(np.ones(10) * .5))]:
        wj = jnp.asarray(w, jnp.float32)

        def one(key):
            k1, k2 = jax.random.split(key)
            return force_move(k2, wj, jax.random.choice(k1, len(w), p=wj))[0]

        c.case('stationarity', {'kind': kind, 'w': w})
        c.law('stationarity of the forced move', vdraw(one), w, R=400_000 if not c.thorough else 3_000_000, weights=w)


def normalisation(c):
    for n in (1, 2, 5, 100):
        for shift in (0., -1e3, 700., -9e4, 2e4):
            lw = c.rng.normal(size=n) * 3
            want = np.exp(lw - lw.max())
            want /= want.sum()
            for dtype in (jnp.float32,):
                l = jnp.asarray(lw + shift, dtype)
                w, lo = np.asarray(normalise(l)), np.asarray(normalise(l, log_space=True))
                c.case('normalise', {'n': n, 'shift': shift})
                t = 1e-5 + 3e-7 * abs(shift)
                c.close(w, want, 'normalised weights', rtol=3 * t, atol=t, shift=shift, lw=lw)
                c.close(np.exp(lo), want, 'normalised log weights', rtol=3 * t, atol=t, shift=shift, lw=lw)
    # small weights keep their relative accuracy, particles of zero weight exactly zero
    for off in (0., 50., -300.):
        lw = np.array([0., -8., -15., -30., -50., -75., -np.inf, -1.])
        w, lo = (np.asarray(normalise(jnp.asarray(lw + off, jnp.float32), log_space=b)) for b in (False, True))
        want = lw - np.log(np.exp(lw).sum())
        c.case('normalise', {'small weights': off})
        c.expect(w[6] == 0 and lo[6] == -np.inf, 'a -inf log weight has weight zero', w=w, lo=lo, offset=off)
        c.close(np.log(np.where(lw > -np.inf, w, 1.)), np.where(lw > -np.inf, want, 0.), 'relative accuracy of small weights', atol=2e-4, rtol=1e-5, offset=off)
        c.close(lo[lw > -np.inf], want[lw > -np.inf], 'log weights', atol=2e-4, rtol=1e-5, offset=off)
    w = np.asarray(normalise(jnp.asarray([0., -jnp.inf, 1.])))
    c.close(w, np.array([1, 0, np.e]) / (1 + np.e), 'weight of a -inf log weight', atol=1e-6)


run_sections(
    Check('C03', 'Weight vectors (skewed, dominant, zero, one-hot, near-one, random) x reference index; oracle: the exact '
          'Metropolised transition matrix; non-trivial = distinct (weights, k)', ['weights are normalised']),
    [law, reported_probability, stationarity, normalisation], moves_observed=500, law_draws=1000)
