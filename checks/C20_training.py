"""C20: the training kernel and the exponential moving average of the parameters."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib.core import *
import jax
jax.config.update('jax_enable_x64', True)
import jax.numpy as jnp
import optax
from lib.monitor import Recorder, by_name
from fbs.nn.utils import make_optax_kernel

OPT = {'sgd': (lambda: optax.sgd(.05)), 'momentum': (lambda: optax.sgd(.03, momentum=.9)), 'adam': (lambda: optax.adam(.02)),
       'adamw': (lambda: optax.adamw(.02, weight_decay=.3)), 'schedule': (lambda: optax.adam(optax.cosine_decay_schedule(.05, 10))),
       'clip': (lambda: optax.chain(optax.clip_by_global_norm(.1), optax.adam(.02)))}


def kernel(c):
    for nm, mk in OPT.items():
        for jit in (True, False):
            rec = Recorder()

            def loss(p, key, x, scale=1.):
                rec.emit('loss', p=p, key=key, x=x, scale=scale)
                return scale * jnp.sum(jnp.sin(p * x) + p ** 2 * .3)
            k, ema = make_optax_kernel(mk(), loss, jit=jit)
            p = q = jnp.asarray(c.rng.normal(size=4))
            opt = mk()
            s, r = mk().init(p), opt.init(q)
            for i in range(8):
                key, x = c.key(), jnp.asarray(c.rng.normal(size=4))
                kw = dict(scale=1.5) if i % 2 else {}
                p0 = p
                p, s, l = k(p, s, key, x, **kw)
                ev = by_name(rec.collect(), 'loss')
                c.ev('loss_evaluations', len(ev))
                d = dict(optimiser=nm, jit=jit, step=i)
                c.case('kernel', d)
                c.expect(len(ev) > 0 and all(np.allclose(e['p'], p0) and np.array_equal(e['key'], key) and np.allclose(e['x'], x) and float(e['scale']) == kw.get('scale', 1.)
                             for e in ev), 'the loss gets the current parameter and all the arguments', **d)
                sc = kw.get('scale', 1.)
                f = lambda z: sc * jnp.sum(jnp.sin(z * x) + z ** 2 * .3)
                c.close(l, f(q), 'returned loss is that of the parameter before the update', rtol=1e-9, **d)
                u, r = opt.update(jax.grad(f)(q), r, q)
                q = optax.apply_updates(q, u)
                c.close(p, q, 'updated parameter', rtol=1e-8, atol=1e-10, **d)
                for a, b in zip(jax.tree_util.tree_leaves(s), jax.tree_util.tree_leaves(r)):
                    c.close(a, b, 'optimiser state', rtol=1e-8, atol=1e-10, **d)


def ema(c):
    _, ek = make_optax_kernel(optax.sgd(.1), lambda p: jnp.sum(p))
    for _ in range(30 if not c.thorough else 300):
        start, every, decay = int(c.rng.integers(0, 6)), int(c.rng.integers(1, 5)), float(c.rng.choice([0., .5, .9, .99, 1.]))
        d = dict(start=start, every=every, decay=decay)
        c.case('ema', d)
        e = want = np.full(3, 7.)
        e = jnp.asarray(e)
        for i in range(16):
            p = c.rng.normal(size=3)
            e = ek(e, jnp.asarray(p), i, start, every, decay)
            if i < start:
                want = p
            elif i % every == 0:
                want = decay * want + (1 - decay) * p
            c.close(e, want, 'exponential moving average', rtol=1e-9, atol=1e-12, count=i, **d)
            c.ev('ema_steps')
        # a constant parameter is a fixed point, and the average stays within the range of the parameters
        c.close(ek(jnp.ones(2), jnp.ones(2), 16, start, every, decay), np.ones(2), 'fixed point of the average', **d)


def training(c):
    """End to end: a regression is learnt and the average converges to the parameter."""
    A, y = c.rng.normal(size=(20, 3)), c.rng.normal(size=20)
    sol = np.linalg.lstsq(A, y, rcond=None)[0]
    k, ek = make_optax_kernel(optax.adam(.05), lambda p, key: jnp.mean((A @ p - y) ** 2))
    p = e = jnp.zeros(3)
    s = optax.adam(.05).init(p)
    ls = []
    for i in range(1500):
        p, s, l = k(p, s, jax.random.PRNGKey(i))
        e = ek(e, p, i, 10, 2, .95)
        ls.append(float(l))
    c.case('training', 'regression')
    c.close(p, sol, 'the regression is learnt', atol=2e-3, rtol=1e-2)
    c.close(e, sol, 'the average is learnt', atol=2e-3, rtol=1e-2)
    c.expect(ls[-1] <= ls[0], 'the loss decreases')


run_sections(
    Check('C20', 'Optimisers x jit x steps; random moving-average schedules; oracle: a hand-written optax loop and recursion; the loss is a recording '
          'monitor; non-trivial = distinct configuration', []),
    [kernel, ema, training], loss_evaluations=90, ema_steps=400)
