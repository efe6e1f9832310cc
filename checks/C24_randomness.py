"""C24: randomness. Every key is consumed at most once; the result is a function of the key and of nothing else.

The monitor is a random number generator of its own (threefry that records every draw and split), plugged in through jax's
extension point, so that the code under test runs unmodified, eagerly or compiled."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib.core import *
import random
import jax
import jax.numpy as jnp
from jax._src import prng
from jax.extend.random import define_prng_impl
from lib.api import catalogue
from lib.monitor import key_id

LOG = []


def _rec(kind, size):
    def host(k):
        LOG.append((kind, key_id(k), size))
    return host


def _seed(seed):
    return prng.threefry_seed(seed)


def _split(key, shape):
    jax.debug.callback(_rec('split', int(np.prod(shape))), key)
    return prng.threefry_split(key, shape)


def _bits(key, bit_width, shape):
    jax.debug.callback(_rec('draw', int(np.prod(shape))), key)
    return prng.threefry_random_bits(key, bit_width, shape)


def _fold(key, data):
    jax.debug.callback(_rec('fold', 1), key)
    return prng.threefry_fold_in(key, data)


MONITORED = define_prng_impl(key_shape=(2,), seed=_seed, split=_split, random_bits=_bits, fold_in=_fold, name='monitored', tag='mon')


REAL_KEY = jax.random.key


def observe(f, key):
    """Keys that the call creates by itself (from a seed) are of the recorded kind, too."""
    LOG.clear()
    orig = jax.random.PRNGKey, jax.random.key
    jax.random.PRNGKey = jax.random.key = lambda seed, *_, **__: REAL_KEY(seed, impl=MONITORED)
    try:
        out = f(key)
        jax.block_until_ready(out)
        jax.effects_barrier()
    finally:
        jax.random.PRNGKey, jax.random.key = orig
    return out, list(LOG)


def same_tree(a, b):
    a, b = jax.tree_util.tree_leaves(a), jax.tree_util.tree_leaves(b)
    return len(a) == len(b) and all(np.array_equal(np.asarray(x), np.asarray(y), equal_nan=True) for x, y in zip(a, b))


def hygiene(c):
    c.rng = np.random.default_rng(SEED)   # the same catalogue for every part
    C = catalogue(c.rng, K=int(c.rng.integers(3, 6)), n=int(c.rng.integers(4, 8)), d=int(c.rng.integers(1, 4)))
    state, pystate = np.random.get_state(), random.getstate()
    i, m = c.part
    for nm, f in list(C.items())[i::m]:
        f = jax.jit(f)
        for rep in range(1 if not c.thorough else 6):
            seed = int(c.rng.integers(2 ** 31 - 1))
            out, log = observe(f, jax.random.key(seed, impl=MONITORED))
            draws = [k for kind, k, _ in log if kind == 'draw']
            splits = [k for kind, k, _ in log if kind == 'split']
            c.case('execution', {'call': nm, 'seed': seed})
            c.ev('draws', len(draws))
            c.ev('splits', len(splits))
            c.ev('numbers', sum(s for kind, _, s in log if kind == 'draw'))
            c.expect(len(draws) > 0, 'the call draws from the key it is given', call=nm)
            c.expect(len(set(draws)) == len(draws), 'a random key is drawn from twice', call=nm, draws=len(draws), distinct=len(set(draws)))
            both = set(draws) & set(splits)
            c.expect(not both, 'a random key is both drawn from and split', call=nm, keys=sorted(both)[:3])
            # the same key again, then another one
            out2, log2 = observe(f, jax.random.key(seed, impl=MONITORED))
            c.expect(same_tree(out, out2), 'the same key gives the same result', call=nm)
            c.expect(sorted(k for kind, k, _ in log2 if kind == 'draw') == sorted(draws), 'the same key gives the same draws', call=nm)
            if rep == 0:
                _, log3 = observe(f, jax.random.key(seed + 1, impl=MONITORED))
                d3 = {k for kind, k, _ in log3 if kind == 'draw'}
                c.expect(not d3 & set(draws), 'another key shares draws with this one', call=nm)
    s2 = np.random.get_state()
    c.expect(all(np.array_equal(x, y) for x, y in zip(state, s2)) and pystate == random.getstate(),
             'global random generators are left alone')


def smallest(c):
    """one step of time, two particles: the ends of the recursions meet"""
    C = catalogue(c.rng, K=1, n=2, d=1)
    i, m = c.part
    names = [nm for nm in C if any(w in nm for w in ('filter', 'smoother', 'csmc', 'gibbs', 'pmcmc', 'twisted'))]
    for nm in names[i::m]:
        out, log = observe(jax.jit(C[nm]), jax.random.key(int(c.rng.integers(2 ** 31 - 1)), impl=MONITORED))
        draws, splits = ([k for kind, k, _ in log if kind == w] for w in ('draw', 'split'))
        c.case('smallest', {'call': nm})
        c.ev('draws', len(draws))
        c.expect(len(set(draws)) == len(draws), 'a random key is drawn from twice', call=nm, K=1)
        both = set(draws) & set(splits)
        c.expect(not both, 'a random key is both drawn from and split', call=nm, keys=sorted(both)[:3], K=1)


def sequences(c):
    """a chain of kernel calls with keys split from one key: no draw is shared between the steps"""
    C = catalogue(c.rng, K=3, n=4, d=2)
    for nm in ('gibbs True False False', 'gibbs False False False', 'csmc killing True', 'pmcmc stratified 0.3', 'filter killing'):
        keys = jax.random.split(jax.random.key(int(c.rng.integers(2 ** 31 - 1)), impl=MONITORED), 6)
        draws = []
        f = jax.jit(C[nm])
        for k in keys:
            draws += [k_ for kind, k_, _ in observe(f, k)[1] if kind == 'draw']
        c.case('chain', {'call': nm, 'draws': len(draws)})
        c.ev('draws', len(draws))
        c.expect(len(set(draws)) == len(draws), 'two steps of a chain share draws', call=nm, draws=len(draws), distinct=len(set(draws)))


def epochs(c):
    """data sets: a corrupted batch draws independently for each of its images"""
    from fbs.data.images import Image
    for task, n in (('supr-4', 40), ('deconv-3', 12), ('inpaint-5', 40)):
        img = Image.__new__(type('Im', (Image,), {}))
        img.n, img.task, img.image_shape = n, task, (16, 16, 1)
        x = jnp.asarray(c.rng.uniform(.2, 1., (1, 16, 16, 1)), jnp.float32)
        img.xs = jnp.repeat(x, n, axis=0)
        seed = int(c.rng.integers(2 ** 31 - 1))
        (xs, ys), log = observe(lambda key: img.enumerate_subset(0, [jnp.arange(n)], key), jax.random.key(seed, impl=MONITORED))
        draws = [k for kind, k, _ in log if kind == 'draw']
        c.case('corrupted batch', {'task': task})
        c.ev('draws', len(draws))
        c.expect(len(set(draws)) == len(draws) >= n, 'every image of a batch has its own draw', task=task, draws=len(draws), distinct=len(set(draws)))
        c.expect(len(np.unique(np.round(np.asarray(ys), 5), axis=0)) > 1, 'the images of a batch are corrupted differently', task=task)


run_sections(
    Check('C24', 'Catalogue of public sampling calls (resampling, filters, smoother, conditional SMC, Gibbs, pMCMC, twisted SMC, simulators, losses, data '
          'sets) x random inputs x keys, under a recording random number generator; non-trivial = distinct call and key',
          ['draws that XLA removes because their result is unused are not observed']),
    [*parts(hygiene, 4), *parts(smallest, 2), sequences, epochs], draws=300, splits=100)
