"""Recording monitors handed to the code under test through its own callback arguments.

Events are emitted with `jax.debug.callback`, hence they are recorded eagerly, under jit and inside `lax.scan` alike.
The checkers that read them are order-insensitive: an event is identified by its content (e.g., the time argument).
"""
import numpy as np
import jax
import jax.numpy as jnp


class Recorder:
    def __init__(self):
        self.events = []

    def emit(self, name, **arrays):
        names = sorted(arrays)

        def host(*vals):
            self.events.append((name, {k: np.array(v) for k, v in zip(names, vals)}))

        jax.debug.callback(host, *[jnp.asarray(arrays[k]) for k in names])

    def collect(self):
        jax.effects_barrier()
        out, self.events = self.events, []
        return out


def by_name(events, name):
    return [e for n, e in events if n == name]


def key_id(k):
    return tuple(np.asarray(k).ravel().tolist())


def keys_distinct(chk, events, what, **data):
    """Every random key handed to a user callback is used for one draw only."""
    ks = [key_id(e['key']) for _, e in events if 'key' in e]
    chk.ev('keys_observed', len(ks))
    chk.expect(len(set(ks)) == len(ks), f'{what}: the same random key is handed to two draws', keys=len(ks),
               distinct=len(set(ks)), **data)


class Particles:
    """A state-space model whose particles carry their provenance: a particle is an array of shape `(*shape, 2)`;
    entry [..., 0] is a fresh continuous value (unique with probability one) and [..., 1] the value of the particle it
    was propagated from."""

    def __init__(self, rng, K, shape=(), vshape=(), kw=None, dtype=np.float64, scale=1., offset=0., dead=0.):
        """`offset` shifts the log-likelihoods; a share of about `dead` of the particles has likelihood zero"""
        self.rec = Recorder()
        self.offset, self.dead = offset, dead
        self.shape, self.vshape, self.kw, self.scale = tuple(shape), tuple(vshape), kw or {}, scale
        self.ts = np.cumsum(rng.uniform(.3, 1.7, K + 1)) - .8
        self.vs = rng.normal(size=(K + 1, *vshape))
        self.K = K

    # deterministic pseudo-random log densities of all of their arguments
    @staticmethod
    def _s(x, nd):
        return x.sum(axis=tuple(range(x.ndim - nd, x.ndim))) if nd else x

    def h_lik(self, xp, v, us, vp, t):
        """log p(v_k | u_{k-1}, v_{k-1}) at t_{k-1}; us (n, *shape, 2)"""
        a = self._s(us[..., 0], len(self.shape))
        l = self.scale * (xp.sin(3.1 * a + 1.3 * v.sum() + .7 * vp.sum() + 2.3 * t) + .4 * a * xp.cos(vp.sum() - 2. * v.sum() + t)) + self.offset
        if self.dead:
            l = xp.where((xp.sin(97. * a) < 2. * self.dead - 1.) & (l < l.max()), -xp.inf, l)
        return l

    def h_trans(self, xp, u, us, v, t):
        """log p(u_k | u_{k-1}, v_{k-1}); broadcasts over both u's"""
        a, b = self._s(us[..., 0], len(self.shape)), self._s(u[..., 0], len(self.shape))
        return self.scale * (xp.sin(2.7 * a - 1.9 * b + .9 * v.sum() + 1.7 * t) - .3 * (a - b) ** 2)

    def check_kw(self, kw):
        return float(kw == self.kw)

    def init_sampler(self, key, v0, n):
        x = jax.random.normal(key, (n, *self.shape))
        out = jnp.stack([x, jnp.full_like(x, 1e6)], -1)
        self.rec.emit('init', key=key, v=v0, n=n, out=out)
        return out

    def transition_sampler(self, us, v, t, key, **kw):
        x = us[..., 0] * .6 + jax.random.normal(key, us.shape[:-1], us.dtype)
        out = jnp.stack([x, us[..., 0]], -1)
        self.rec.emit('trans', key=key, us=us, v=v, t=t, out=out, kw=self.check_kw(kw))
        return out

    def lik(self, v, us, vp, t, **kw):
        out = self.h_lik(jnp, v, us, vp, t)
        self.rec.emit('lik', v=v, us=us, vp=vp, t=t, kw=self.check_kw(kw), out=out)
        return out

    def lik_pdf(self, *args, **kw):
        return jnp.exp(self.lik(*args, **kw))

    def trans_logpdf(self, u, us, v, t, **kw):
        out = self.h_trans(jnp, u, us, v, t)
        self.rec.emit('tlogpdf', u=u, us=us, v=v, t=t, kw=self.check_kw(kw), out=out)
        return out

    def wrap_resampling(self, f):
        def resampling(w, key):
            idx = f(w, key)
            self.rec.emit('resample', w=w, key=key, idx=idx)
            return idx
        return resampling

    def wrap_cond_resampling(self, f):
        def resampling(key, w, i, j, conditional=True):
            idx = f(key, w, i, j, conditional)
            self.rec.emit('resample', w=w, key=key, idx=idx, i=i, j=j, cond=conditional)
            return idx
        return resampling

    def time_index(self, t):
        d = np.abs(self.ts - float(t))
        k = int(np.argmin(d))
        return k if d[k] < 1e-9 * (1 + abs(float(t))) else -1


def norm_w(lw):
    w = np.exp(lw - lw.max())
    return w / w.sum()


def lse(x):
    m = np.max(x)
    return m + np.log(np.exp(x - m).sum())


class Finite:
    """A finite state-space model with exactly enumerable laws.

        p(u_0, v_0)  prod_k  f_k(u_{k+1} | u_k, v_k) g_k(v_{k+1} | u_k, v_k)

    The callbacks look their tables up by the *time argument*: any time that is not t_k for the right k, or any swapped
    argument, selects another (different) table. States are stored as floats of shape `(*shape)` (all entries equal).
    """

    def __init__(self, rng, K=3, Su=2, Sv=2, conc=1., shape=(), sticky=0.):
        self.K, self.Su, self.Sv, self.shape = K, Su, Sv, tuple(shape)
        D = lambda *sh: rng.dirichlet(np.ones(sh[-1]) * conc, size=sh[:-1]) * (1 - .02 * sh[-1]) + .02
        self.f = D(K, Su, Sv, Su)
        self.g = D(K, Su, Sv, Sv)
        if sticky:
            # u tends to stay where it is and v to follow it: weights that differ a lot and matter for what comes next
            self.f = (1 - sticky) * self.f + sticky * np.eye(Su)[None, :, None, :]
            self.g = (1 - sticky) * self.g + sticky * np.eye(max(Su, Sv))[:Su, :Sv][None, :, None, :]
            self.g /= self.g.sum(-1, keepdims=True)
        self.pi = D(1, Su * Sv)[0].reshape(Su, Sv)
        self.pi /= self.pi.sum()
        self.p0 = self.pi / self.pi.sum(0, keepdims=True)
        self.ts = np.cumsum(rng.uniform(.5, 1.5, K + 1)) - .3
        # table K + 1 answers illegitimate times
        self.lf = np.log(np.concatenate([self.f, D(2, Su, Sv, Su)]))
        self.lg = np.log(np.concatenate([self.g, D(2, Su, Sv, Sv)]))

    def tix(self, t):
        d = jnp.abs(jnp.asarray(self.ts, jnp.float32) - t)
        return jnp.where(jnp.min(d) < 1e-4, jnp.argmin(d), self.K + 1)

    def ix(self, x, batch=True):
        nd = len(self.shape)
        return (x.reshape(*x.shape[:x.ndim - nd], -1)[..., 0] if nd else x).astype(jnp.int32)

    def ex(self, i):
        return (i.reshape(*i.shape, *(1,) * len(self.shape)) * jnp.ones(self.shape)).astype(jnp.float32)

    def init_given(self, v0):
        def init_sampler(key, n):
            return self.ex(jax.random.choice(key, self.Su, (n,), p=jnp.asarray(self.p0[:, v0], jnp.float32)))
        return init_sampler

    def transition_sampler(self, us, v, t, key, **kw):
        lp = jnp.asarray(self.lf, jnp.float32)[self.tix(t), self.ix(us), v.astype(jnp.int32)]
        return self.ex(jax.random.categorical(key, lp, axis=-1))

    def transition_logpdf(self, u, us, v, t, **kw):
        return jnp.asarray(self.lf, jnp.float32)[self.tix(t), self.ix(us), v.astype(jnp.int32), self.ix(u)]

    def lik(self, v, us, vp, t, **kw):
        return jnp.asarray(self.lg, jnp.float32)[self.tix(t), self.ix(us), vp.astype(jnp.int32), v.astype(jnp.int32)]

    def paths(self, S=None, L=None):
        import itertools
        return np.array(list(itertools.product(range(S or self.Su), repeat=L or self.K + 1)))

    def gamma(self, vs, upto=None):
        """Unnormalised weights of all u-paths given v-path: p(u_0 | v_0) prod f g."""
        P = self.paths()
        w = self.p0[P[:, 0], vs[0]].copy()
        for k in range(self.K):
            w = w * self.f[k, P[:, k], vs[k], P[:, k + 1]] * self.g[k, P[:, k], vs[k], vs[k + 1]]
        return P, w


def members(x, pool, tol=1e-9):
    """every entry of x is (up to rounding) one of pool; rows when 2-D"""
    x, pool = np.atleast_1d(x), np.atleast_1d(pool)
    if x.ndim == 1:
        x, pool = x[:, None], pool[:, None]
    return bool((np.abs(x[:, None] - pool[None]).max(-1).min(1) <= tol * (1 + np.abs(x).max())).all())


def same(x, y, tol=1e-9):
    x, y = np.asarray(x), np.asarray(y)
    return x.shape == y.shape and bool(np.allclose(x, y, rtol=tol, atol=tol))
