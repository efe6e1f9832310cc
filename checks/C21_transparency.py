"""C21: program transformations. The samplers mean the same eagerly, compiled, vectorised over keys, and in double precision."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib.core import *
import jax
import jax.numpy as jnp
from jax.experimental import enable_x64
from lib.api import catalogue, draw_data, STATEFUL

leaves = jax.tree_util.tree_leaves


def differ(a, b, tol=2e-3):
    a, b = leaves(a), leaves(b)
    if len(a) != len(b):
        return f'{len(a)} and {len(b)} arrays'
    for i, (x, y) in enumerate(zip(a, b)):
        x, y = np.asarray(x), np.asarray(y)
        if x.shape != y.shape or x.dtype.kind != y.dtype.kind:
            return f'array {i}: {x.dtype}{x.shape} and {y.dtype}{y.shape}'
        if not np.allclose(x.astype(float), y.astype(float), rtol=tol, atol=tol * max(1., np.abs(x[np.isfinite(x)]).max() if np.isfinite(x).any() else 1.), equal_nan=True):
            return f'array {i}: difference of {np.abs(x.astype(float) - y.astype(float)).max():.3g}'
    return None


def transformations(c):
    c.rng = np.random.default_rng(SEED)   # the same catalogue for every part
    size = dict(K=int(c.rng.integers(3, 6)), n=int(c.rng.integers(4, 9)), d=int(c.rng.integers(1, 4)))
    data = draw_data(c.rng, **size)
    build = lambda data: catalogue(np.random.default_rng(SEED), **size, data=data)   # the inputs may be traced
    C = {k: v for k, v in build(data).items() if k not in STATEFUL}
    names = list(C)
    if not c.thorough:   # one resampling scheme / precision of each family is enough per run
        names = [n for n in names if n.split()[0] in ('resampling', 'conditional', 'restore', 'gibbs', 'csmc', 'smoother', 'doob', 'ipf') or c.rng.uniform() < .4]
    i, m = c.part
    for nm in names[i::m]:
        f = C[nm]
        keys = [c.key() for _ in range(8)]
        c.case('call', {'call': nm, 'key': keys[0]})
        g = jax.jit(jax.vmap(lambda key, data: build(data)[nm](key), (0, None)))
        with c.guard('compiling a call with all of its inputs traced', call=nm):
            v = None
            v = g(jnp.stack(keys), data)
        if v is None:
            continue
        row = lambda j: jax.tree_util.tree_map(lambda z: z[j], v)
        # rounding may flip a comparison of one draw in a million: a mismatch counts when it shows for several keys
        bad, c_ = differ(f(keys[0]), row(0)), 0
        c.ev('comparisons')
        if bad:
            c_ = sum(differ(f(keys[j]), row(j)) is not None for j in range(8))
        c.expect(c_ < 2, 'eager results and those compiled and vectorised over keys differ', call=nm, first=bad, mismatches=c_, of=8)
        if c.thorough:
            jf = jax.jit(lambda key: build(data)[nm](key))
            c_ = sum(differ(jf(keys[j]), row(j)) is not None for j in range(8))
            c.expect(c_ < 2, 'compiled results and those vectorised over keys differ', call=nm, mismatches=c_, of=8)


def rounded(jaxpr):
    """the places where a double is rounded to a shorter float, or made of one (a draw of single precision)"""
    from jax._src import source_info_util
    for e in jaxpr.eqns:
        if e.primitive.name == 'convert_element_type':
            a, b = e.invars[0].aval.dtype, e.outvars[0].aval.dtype
            if jnp.issubdtype(a, jnp.floating) and jnp.issubdtype(b, jnp.floating) and (a == jnp.float64) != (b == jnp.float64):
                yield source_info_util.summarize(e.source_info)
        for v in e.params.values():
            for w in v if isinstance(v, (tuple, list)) else [v]:
                if isinstance(w, jax.core.ClosedJaxpr):
                    yield from rounded(w.jaxpr)
                elif isinstance(w, jax.core.Jaxpr):
                    yield from rounded(w)


def double_precision(c):
    """double precision in, double precision out, and the results are those of single precision up to rounding when no draw is involved"""
    with enable_x64():
        import lib.api as api
        rng = np.random.default_rng(int(c.rng.integers(2 ** 31)))
        real = jnp.float32
        api.jnp = type('J', (), {'__getattr__': lambda self, k: real64(k)})()
        C = {k: v for k, v in api.catalogue(rng, K=3, n=5, d=2).items() if k not in STATEFUL}
        names = list(C)
        pick = names
        for nm in pick:
            jaxpr = jax.make_jaxpr(C[nm])(jax.random.PRNGKey(3))
            c.case('precision', {'call': nm})
            where = sorted(set(rounded(jaxpr.jaxpr)))
            c.ev('programs_inspected')
            c.expect(not where, 'a number of single precision on the way of double precision', call=nm, where=where[:5])
            for z in jaxpr.out_avals:
                c.expect(not jnp.issubdtype(z.dtype, jnp.floating) or z.dtype == jnp.float64, 'double precision is lost', call=nm, got=str(z.dtype))
                c.ev('dtypes')
        api.jnp = jnp


def real64(k):
    return jnp.float64 if k == 'float32' else getattr(jnp, k)


run_sections(
    Check('C21', 'Catalogue of public sampling calls x random inputs and keys; oracle: eager vs compiled vs vectorised runs of the same call; '
          'dtypes under x64; non-trivial = distinct call and key', ['a mismatch counts when two of eight keys show it (rounding may flip one comparison)']),
    [*parts(transformations, 5), double_precision], comparisons=40, dtypes=30)
