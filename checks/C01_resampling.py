"""C01: unconditional resampling. Every call is observed at the API boundary."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib.core import *
import itertools
import jax
import jax.numpy as jnp
from fbs.samplers import resampling as rs
from fbs.samplers.csmc import resamplings as crs

SCHEMES = {
    'systematic': lambda w, k: rs.systematic(w, k),
    'stratified': lambda w, k: rs.stratified(w, k),
    'multinomial': lambda w, k: rs.multinomial(w, k),
    'killing': lambda w, k: rs.killing(w, k),
    'csmc.multinomial': lambda w, k: crs.multinomial(k, w, conditional=False),
    'csmc.killing': lambda w, k: crs.killing(k, w, conditional=False),
    'csmc.systematic': lambda w, k: crs.systematic(k, w, conditional=False),
}
JS = {k: jax.jit(v) for k, v in SCHEMES.items()}
VS = {k: jax.jit(jax.vmap(v, in_axes=(None, 0))) for k, v in SCHEMES.items()}


def counts_of(a, n):
    """code of the count vector (base n + 1)"""
    c = jax.nn.one_hot(a, n, dtype=jnp.int32).sum(-2)
    return (c * (n + 1) ** np.arange(n)).sum(-1)


def exact_counts_law(scheme, w):
    """dict code -> probability of the vector of offspring counts"""
    n = len(w)
    pw = (n + 1) ** np.arange(n)
    cs = np.cumsum(w)
    out = {}

    def add(idx, p):
        code = int(sum(pw[i] for i in idx))
        out[code] = out.get(code, 0.) + p

    if scheme.endswith('systematic'):
        br = sorted({0., 1.} | {float(b) for c in cs for b in [(c * n) % 1.]})
        for lo, hi in zip(br[:-1], br[1:]):
            if hi - lo < 1e-14:
                continue
            u = (np.arange(n) + (lo + hi) / 2) / n
            add(np.minimum(np.searchsorted(cs, u), n - 1), hi - lo)
    else:
        if scheme == 'stratified':
            lo = np.concatenate([[0.], cs[:-1]])
            slot = np.array([[max(0., min(cs[i], (m + 1) / n) - max(lo[i], m / n)) * n for i in range(n)]
                             for m in range(n)])
        elif scheme.endswith('multinomial'):
            slot = np.tile(w, (n, 1))
        else:
            slot = killing_slots(w)
        for idx in itertools.product(range(n), repeat=n):
            p = np.prod([slot[m, i] for m, i in enumerate(idx)])
            if p > 0:
                add(idx, p)
    return out


def killing_slots(w):
    n = len(w)
    stay = w / w.max()
    return np.diag(stay) + (1 - stay)[:, None] * w[None, :]


def weight_vectors(rng, ns, per=1):
    for n in ns:
        yield n, 'uniform', np.full(n, 1. / n)
        for _ in range(per):
            yield n, 'dirichlet', rng.dirichlet(np.ones(n))
            yield n, 'spiky', rng.dirichlet(np.full(n, .15))
        if n > 1:
            e = np.zeros(n)
            e[rng.integers(n)] = 1.
            yield n, 'one-hot', e
            w = rng.dirichlet(np.ones(n))
            w[rng.permutation(n)[: max(1, n // 2)]] = 0.
            yield n, 'zeros', w / w.sum()
            w = rng.dirichlet(np.ones(n))
            w[0], w[-1] = 0., (0. if n > 2 else w[-1])
            yield n, 'zero-ends', w / w.sum()
            w = 10. ** rng.uniform(-14, 0, n)
            yield n, 'tiny', w / w.sum()


def law_of_counts(c):
    """Exact law of the offspring counts for small n."""
    vecs = [np.array([.5, .3, .2]), np.array([.05, .6, .35]), np.array([.1, .2, .3, .4]), np.array([.7, .05, .15, .1]),
            np.array([.9, .1]), c.rng.dirichlet(np.ones(3)), c.rng.dirichlet(np.ones(4) * .5)]
    if not c.thorough:
        vecs = vecs[:4] + vecs[-1:]
    for w in vecs:
        n = len(w)
        for name in SCHEMES:
            table = exact_counts_law(name, w)
            codes = np.array(sorted(table))
            probs = np.array([table[k] for k in codes])
            f = jax.jit(jax.vmap(lambda k: counts_of(SCHEMES[name](jnp.asarray(w, jnp.float32), k), n)))

            def draw(key, R):
                x = np.asarray(f(jax.random.split(key, R)))
                i = np.searchsorted(codes, x)
                i = np.minimum(i, len(codes) - 1)
                return np.where(codes[i] == x, i, -1)

            c.case('counts law', {'scheme': name, 'w': w})
            c.law(f'{name} offspring counts', draw, probs / probs.sum(), R=200_000 if not c.thorough else 2_000_000,
                  scheme=name, weights=w)


def slot_law_killing(c):
    """Killing: every slot keeps its own index with probability w_i / max w, else an independent multinomial draw; the
    joint over two slots factorises."""
    for n in (3, 5):
        w = c.rng.dirichlet(np.ones(n))
        slots = killing_slots(w)
        for name in ('killing', 'csmc.killing'):
            joint = np.einsum('i,j->ij', slots[0], slots[n - 1]).ravel()
            f = jax.jit(jax.vmap(lambda k: (lambda a: a[0] * n + a[n - 1])(SCHEMES[name](jnp.asarray(w, jnp.float32), k))))
            c.case('killing slots', {'scheme': name, 'w': w})
            c.law(f'{name} slots (0, {n - 1})', lambda key, R: f(jax.random.split(key, R)), joint, scheme=name, weights=w)
            f1 = jax.jit(jax.vmap(lambda k: SCHEMES[name](jnp.asarray(w, jnp.float32), k)[1]))
            c.law(f'{name} slot 1', lambda key, R: f1(jax.random.split(key, R)), slots[1], scheme=name, weights=w)


def pathwise(c):
    """Facts that must hold on every single call: range, no particle of weight zero, counts bounds, identity."""
    ns = [1, 2, 3, 5, 8, 17, 64, 257] + ([1000, 4096] if c.thorough else [])
    per = 6 if c.thorough else 2
    B = 400 if c.thorough else 100
    for dtype in (np.float32, np.float64):
        jax.config.update('jax_enable_x64', dtype == np.float64)
        try:
            for n, kind, w in weight_vectors(c.rng, ns, per):
                wd = w.astype(dtype)
                wj = jnp.asarray(wd)
                for name in SCHEMES:
                    a = np.asarray(VS[name](wj, jax.random.split(c.key(), B)))
                    c.case(f'pathwise {np.dtype(dtype).name}', {'n': n, 'kind': kind, 'scheme': name, 'w': w[:6]}, n=B)
                    c.ev('resampling_calls', B)
                    c.ev('indices_observed', a.size)
                    d = dict(scheme=name, n=n, kind=kind, dtype=np.dtype(dtype).name, weights=wd)
                    if not c.expect(a.shape == (B, n) and np.issubdtype(a.dtype, np.integer),
                                    f'{name}: result must be n integer indices', got=(a.shape, str(a.dtype)), **d):
                        continue
                    if not c.expect(a.min() >= 0 and a.max() < n, f'{name}: index out of range', lo=a.min(), hi=a.max(), **d):
                        continue
                    nz = int((wd[a] == 0).sum())
                    # a handful of ulp-sized slivers are unavoidable in single precision for larger n
                    c.expect(nz <= (0 if dtype == np.float64 or n < 8 else 2), f'{name}: selects particles of zero weight',
                             hits=nz, **d)
                    cnt = np.stack([np.bincount(x, minlength=n) for x in a])
                    ew = n * w
                    slack = 1e-9 * n if dtype == np.float64 else 4e-6 * n
                    if name.endswith('systematic'):
                        c.expect(np.all(cnt >= np.floor(ew - slack)) and np.all(cnt <= np.ceil(ew + slack)),
                                 f'{name}: number of copies is not floor/ceil of n w', **d)
                    if name == 'stratified':
                        c.expect(np.all(np.abs(cnt - ew) < 2 + slack), f'{name}: copies deviate by two or more', **d)
                    if kind == 'one-hot':
                        c.expect(np.all(a == int(np.argmax(w))), f'{name}: one-hot weights must copy that particle', **d)
                    if kind == 'uniform' and 'killing' in name:
                        c.expect(np.all(a == np.arange(n)), f'{name}: uniform weights must not move particles', **d)
                    if kind == 'uniform' and 'systematic' in name and n <= 17:
                        c.expect(np.all(np.sort(a, 1) == np.arange(n)), f'{name}: uniform weights must keep all', **d)
        finally:
            jax.config.update('jax_enable_x64', False)


def mean_counts(c):
    """E[copies of i] = n w_i for moderate n."""
    for n in (7, 16):
        for w in (c.rng.dirichlet(np.ones(n)), c.rng.dirichlet(np.full(n, .3))):
            for name in SCHEMES:
                f = jax.jit(jax.vmap(lambda k: jax.nn.one_hot(SCHEMES[name](jnp.asarray(w, jnp.float32), k), n).sum(0)))
                c.case('mean counts', {'n': n, 'scheme': name, 'w': w[:6]})
                c.mean(f'{name} expected copies', lambda key, R: f(jax.random.split(key, R)), n * w,
                       R=40_000 if not c.thorough else 400_000, abs_tol=2e-5, scheme=name, weights=w)


def rounded_weights(c):
    """Weights whose sum is off one by rounding (log-weights of magnitude 1e4 in single precision, as filters produce):
    still in range, no particle of zero weight, relative frequencies kept."""
    B = 200_000
    for n in (3, 6):
        for off in (0.3e4, 1e4, 3e4):
            lw = np.full(n, -np.inf)
            lw[1:-1] = -off + c.rng.normal(size=n - 2)
            lwj = jnp.asarray(lw, jnp.float32)
            w = jnp.exp(lwj - jax.scipy.special.logsumexp(lwj))
            for name in SCHEMES:
                a = np.asarray(VS[name](w, jax.random.split(c.key(), B)))
                c.ev('resampling_calls', B)
                c.case('rounded weights', {'n': n, 'sum': float(w.sum()), 'scheme': name, 'off': off}, n=B)
                d = dict(scheme=name, weights=w, sum=float(w.sum()))
                c.expect(a.min() >= 0 and a.max() < n, f'{name}: index out of range (rounded weights)', **d)
                c.expect(int(((a == 0) | (a == n - 1)).sum()) == 0, f'{name}: zero weight selected (rounded weights)', **d)
                c.expect(np.abs(np.bincount(a.ravel() % n, minlength=n) / a.size - np.asarray(w) / float(w.sum())).max() < 4e-3,
                         f'{name}: frequencies (rounded weights)', **d)


def boundary_uniforms(c):
    """Very many calls, so that the uniforms hit the ends of their interval: a zero-weight first / last particle must
    never be returned and nothing is ever out of range."""
    w = jnp.asarray([0., .5, .5, 0.], jnp.float32)
    B = 1_000_000
    for name in SCHEMES:
        f = jax.jit(jax.vmap(lambda k: (lambda a: ((a < 1) | (a > 2)).sum())(SCHEMES[name](w, k))))
        bad = 0
        for _ in range(60 if c.thorough else 12):
            bad += int(np.asarray(f(jax.random.split(c.key(), B))).sum())
            c.ev('resampling_calls', B)
        c.case('boundary uniforms', {'scheme': name, 'w': w}, n=B)
        c.expect(bad == 0, f'{name}: zero-weight particle selected at a boundary draw', scheme=name, weights=w, hits=bad)


def many_particles(c):
    """Thousands of particles: range, copies within the bounds of the scheme (up to rounding), frequencies of groups of particles."""
    for n in (3000, 5001) + ((20_000,) if c.thorough else ()):
        for kind in ('uniform', 'dirichlet'):
            w = np.full(n, 1 / n) if kind == 'uniform' else c.rng.dirichlet(np.ones(n))
            wj = jnp.asarray(w, jnp.float32)
            for name in SCHEMES:
                a = np.asarray(VS[name](wj, jax.random.split(c.key(), 20)))
                c.case('many particles', {'scheme': name, 'n': n, 'kind': kind}, n=20)
                c.ev('resampling_calls', 20)
                d = dict(scheme=name, n=n, kind=kind)
                if not c.expect(a.shape == (20, n) and a.min() >= 0 and a.max() < n, f'{name}: index out of range (many particles)', **d):
                    continue
                cnt = np.stack([np.bincount(x, minlength=n) for x in a])
                if name.endswith('systematic') or name == 'stratified':
                    bound = 1.1 if name.endswith('systematic') else 2.1
                    c.expect(np.abs(cnt - n * w).max() < bound, f'{name}: copies deviate from n w (many particles)', worst=np.abs(cnt - n * w).max(), **d)
                m = cnt.mean(0)[:n // 30 * 30].reshape(30, -1).sum(1)   # 30 groups of neighbours: standard deviation below 3 for 20 multinomial draws of n / 30
                want = (n * w)[:n // 30 * 30].reshape(30, -1).sum(1)
                c.expect(np.abs(m - want).max() < 9 * np.sqrt(2 * n / 30 / 20), f'{name}: copies of groups of particles', got=m, want=want, **d)


def transparency(c):
    """Same key: eager, jitted and vmapped executions agree, and the result is reproducible."""
    for n in (2, 6, 33):
        w = c.rng.dirichlet(np.ones(n)).astype(np.float32)
        ks = jax.random.split(c.key(), 20)
        for name in SCHEMES:
            v = np.asarray(VS[name](jnp.asarray(w), ks))
            diff = []
            for m in (0, 7, 11, 19):
                e = np.asarray(SCHEMES[name](jnp.asarray(w), ks[m]))
                e2 = np.asarray(SCHEMES[name](jnp.asarray(w), ks[m]))
                j = np.asarray(JS[name](jnp.asarray(w), ks[m]))
                c.case('transparency', {'scheme': name, 'n': n, 'm': m})
                c.expect(np.array_equal(e, e2), f'{name}: same key, different result', weights=w)
                if not (np.array_equal(e, j) and np.array_equal(e, v[m])):
                    diff.append((e, j, v[m]))
            # (a single disagreement may be a rounding tie between fused and unfused arithmetic)
            c.expect(len(diff) < 2, f'{name}: eager / jit / vmap disagree', diff=diff, weights=w)
            c.expect(n < 6 or len(np.unique(v, axis=0)) > 1, f'{name}: the result does not depend on the key', weights=w)


run_sections(
    Check('C01', 'Weight vectors (uniform, Dirichlet, spiky, one-hot, with zeros, tiny, rounded sums) x scheme x n x dtype x keys; '
          'non-trivial = a distinct (weights, scheme) pair; exact enumerated laws of the offspring counts are the oracle',
          ['weights are normalised up to floating-point rounding']),
    [law_of_counts, slot_law_killing, pathwise, mean_counts, rounded_weights, boundary_uniforms, many_particles, transparency],
    resampling_calls=1000, law_draws=1000)
