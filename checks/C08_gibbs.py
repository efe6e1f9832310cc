"""C08: the forward-backward Gibbs kernel leaves p(x_0 | y_0) invariant, moves, and its outputs are coherent."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib.core import *
import itertools
import jax
import jax.numpy as jnp
from lib.monitor import *
from fbs.samplers import gibbs_kernel, gibbs_init
from fbs.sdes import StationaryConstLinearSDE, StationaryLinLinearSDE

SDE = StationaryConstLinearSDE(a=-.5, b=1.)


class Joint(Finite):
    """The reversal of a forward noising chain: x_k = u_(K-k), y_k = v_(K-k), everything enumerated."""

    def __init__(self, rng, **kw):
        super().__init__(rng, **kw)
        S = self.Su * self.Sv
        Z = np.array(list(itertools.product(range(S), repeat=self.K + 1)))
        U, V = Z // self.Sv, Z % self.Sv
        p = self.pi[U[:, 0], V[:, 0]].copy()
        for k in range(self.K):
            p = p * self.f[k, U[:, k], V[:, k], U[:, k + 1]] * self.g[k, U[:, k], V[:, k], V[:, k + 1]]
        self.U, self.V, self.p = U, V, p / p.sum()

    def fwd_sampler(self, y0):
        ok = self.V[:, -1] == y0
        U, V, p = self.U[ok], self.V[ok], self.p[ok]
        W = np.stack([np.where(U[:, -1] == x, p, 0.) for x in range(self.Su)])
        with np.errstate(divide='ignore'):
            lp = jnp.asarray(np.log(W / W.sum(1, keepdims=True)), jnp.float32)
        Uj, Vj = jnp.asarray(U), jnp.asarray(V)

        def sampler(key, x0, y, **kw):
            j = jax.random.categorical(key, lp[self.ix(x0)])
            # an observation other than y0 is answered with garbage
            vpath = jnp.where(self.ix(y) == y0, Vj[j], (Vj[j] + 1) % self.Sv)
            return jnp.stack([self.ex(Uj[j])[::-1], self.ex(vpath)[::-1]], axis=-1)
        return sampler

    @staticmethod
    def unpack(xy, **kw):
        return xy[..., 0], xy[..., 1]

    # v may come with the shape of u here
    def transition_sampler(self, us, v, t, key, **kw):
        return super().transition_sampler(us, self.ix(v), t, key)

    def transition_logpdf(self, u, us, v, t, **kw):
        return super().transition_logpdf(u, us, self.ix(v), t)

    def lik(self, v, us, vp, t, **kw):
        return super().lik(self.ix(v), us, self.ix(vp), t)

    def kernel(self, y0, n, explicit_backward):
        fwd = self.fwd_sampler(y0)
        ts = jnp.asarray(self.ts, jnp.float32)
        return lambda key, x0, bs: gibbs_kernel(key, x0, self.ex(jnp.asarray(y0)), jnp.zeros((self.K + 1, *self.shape)), bs, ts, fwd, SDE, self.unpack, n,
                                                self.transition_sampler, self.transition_logpdf, self.lik,
                                                marg_y=False, explicit_backward=explicit_backward, explicit_final=False)


def invariance(c):
    cfgs = [(dict(K=2, Su=2, Sv=2, conc=.4), 2), (dict(K=2, Su=3, Sv=2, conc=.4), 3), (dict(K=1, Su=3, Sv=3, conc=.4), 2),
            (dict(K=3, Su=2, Sv=2, conc=1., sticky=.7), 2), (dict(K=2, Su=3, Sv=3, conc=1., sticky=.8), 3)]
    if c.thorough:
        cfgs += [(dict(K=3, Su=2, Sv=2, conc=.3), 2), (dict(K=3, Su=2, Sv=2, conc=.3), 5), (dict(K=2, Su=2, Sv=3, conc=.3), 4),
                 (dict(K=4, Su=2, Sv=2, conc=.5), 3)]
    for q, (s, n) in enumerate(cfgs):
        if q % c.part[1] != c.part[0]:
            continue
        m = Joint(c.rng, **s, shape=(2,) if q == 1 else ())
        y0 = int(c.rng.integers(m.Sv))
        ok = m.V[:, -1] == y0
        nU = m.Su ** (m.K + 1)
        code = (m.U * m.Su ** np.arange(m.K, -1, -1)).sum(1)
        law = np.bincount(code[ok], m.p[ok], minlength=nU)
        law /= law.sum()
        px0 = np.bincount(m.U[ok, -1], m.p[ok], minlength=m.Su)
        px0 /= px0.sum()
        for eb in (True, False):
            ker = m.kernel(y0, n, eb)
            for mode in ('random', 'chained'):
                if mode == 'chained' and q < 3 and q != 0 and not c.thorough:
                    continue
                steps = 1 if mode == 'random' else 2 if q == 0 else 4

                def one(key):
                    k1, k2, k3 = jax.random.split(key, 3)
                    x0 = m.ex(jax.random.choice(k1, m.Su, p=jnp.asarray(px0, jnp.float32)))
                    bs = jax.random.randint(k2, (m.K + 1,), 0, n)
                    def step(carry, key_):
                        x1, us, nb, ch = ker(key_, carry[0], carry[1])
                        return (x1, nb), (us, nb, jnp.all(ch == (nb != carry[1])))
                    (x1, _), (us, nb, ch) = jax.lax.scan(step, (x0, bs), jax.random.split(k3, steps))
                    us, nb = us[-1], nb[-1]
                    cd = (m.ix(us) * m.Su ** np.arange(m.K, -1, -1)).sum()
                    good = (m.ix(us)[-1] == m.ix(x1)) & (nb.min() >= 0) & (nb.max() < n) & jnp.all(ch)
                    return jnp.where(good, cd, -1)

                c.ev('kernel_laws')
                c.case('invariance', {'model': s, 'n': n, 'y0': y0, 'explicit_backward': eb, 'mode': mode})
                c.law(f'Gibbs invariance (n={n}, explicit_backward={eb}, {mode})', vdraw(one), law,
                      R=(300_000 if steps < 4 else 150_000) * (5 if c.thorough else 1), model=s, y0=y0)


def mixing(c):
    """Many particles: from any x_0 the kernel is close to the exact two-block Gibbs kernel."""
    for eb in (True, False):
        m = Joint(c.rng, K=2, Su=2, Sv=2, conc=.6)
        y0 = 1
        ok = m.V[:, -1] == y0
        U, V, p = m.U[ok], m.V[ok], m.p[ok]
        grp = U[:, 0] * 2 ** (m.K + 1) + (V * 2 ** np.arange(m.K, -1, -1)).sum(1)  # what is held fixed: u_0 and v_0:K
        n, R = 300, 4000
        ker = m.kernel(y0, n, eb)
        for x0 in range(2):
            a = np.where(U[:, -1] == x0, p, 0)
            a /= a.sum()
            want = sum(a[grp == gidx].sum() * np.bincount(U[grp == gidx, -1], p[grp == gidx], minlength=2) / p[grp == gidx].sum()
                       for gidx in np.unique(grp))

            def one(key):
                k1, k2 = jax.random.split(key)
                return m.ix(ker(k1, m.ex(jnp.asarray(x0)), jax.random.randint(k2, (m.K + 1,), 0, n))[0])

            x = np.bincount(np.asarray(vdraw(one)(c.key(), R)), minlength=2) / R
            c.case('mixing', {'explicit_backward': eb, 'x0': x0})
            c.close(x, want, f'Gibbs kernel with {n} particles is far from the exact Gibbs kernel', rtol=0, atol=.05, x0=x0, eb=eb)


def coherence(c):
    """Traced runs on provenance-carrying particles: what is conditioned on, and where the outputs come from."""
    jax.config.update('jax_enable_x64', True)
    try:
        for K, n, shape, kw, marg in ((3, 4, (), {}, False), (4, 3, (2,), {'extra': 2.}, False), (2, 5, (2, 1), {}, False),
                                      (3, 4, (2,), {}, True)) * (3 if c.thorough else 1):
            m = Particles(c.rng, K, shape, (*shape, 2), kw)
            m.ts = np.linspace(0., 1., K + 1) if marg else m.ts
            ts = jnp.asarray(m.ts)
            y0, x0 = c.rng.normal(size=(*shape, 2)), c.rng.normal(size=(*shape, 2))
            calls = []

            def fwd_sampler(key, x, y, **k):
                px = jnp.concatenate([x[None], jax.random.normal(key, (K, *x.shape))])
                py = jnp.concatenate([y[None], jax.random.normal(jax.random.fold_in(key, 1), (K, *y.shape))])
                m.rec.emit('fwd', key=key, x=x, y=y, px=px, py=py, kw=m.check_kw(k))
                return px, py

            unpack = lambda xy, **k: xy
            for eb in (True, False):
                bs = c.rng.integers(0, n, K + 1)
                run = jax.jit(lambda key: gibbs_kernel(key, jnp.asarray(x0), jnp.asarray(y0), jnp.zeros((K + 1, *shape, 2)), jnp.asarray(bs), ts,
                                                       fwd_sampler, SDE, unpack, n, m.transition_sampler, m.trans_logpdf, m.lik,
                                                       marg_y=marg, explicit_backward=eb, **kw))
                for rep in range(3):
                    key = c.key()
                    d = dict(K=K, n=n, shape=shape, explicit_backward=eb, marg_y=marg, seedkey=np.asarray(key))
                    x1, us, nb, ch = map(np.asarray, run(key))
                    ev = m.rec.collect()
                    c.ev('callback_events', len(ev))
                    c.case('coherence', d)
                    if not c.expect(x1.shape == x0.shape and us.shape == (K + 1, *x0.shape) and nb.shape == (K + 1,) == ch.shape, 'shapes',
                                    got=(x1.shape, us.shape, nb.shape), **d):
                        continue
                    c.close(x1, us[-1], 'x_0 is the end of the returned backward trajectory', **d)
                    c.expect(np.array_equal(ch, nb != bs), 'the returned flags tell which indices changed', **d)
                    c.expect(nb.min() >= 0 and nb.max() < n, 'index range', **d)
                    f = by_name(ev, 'fwd')
                    # (the move may keep x_0, so that both passes start there: the second is the one that is returned)
                    first = [e for e in f if same(e['x'], x0) and not (eb and same(e['px'][::-1], us))]
                    c.expect(len(first) == 1 and len(f) == (2 if eb else 1) and all(same(e['y'], y0) and e['kw'] for e in f),
                             'forward noising is run from (x_0, y_0)', calls=len(f), **d)
                    if not first:
                        continue
                    px, py = first[0]['px'], first[0]['py']
                    lik, trans = by_name(ev, 'lik'), by_name(ev, 'trans')
                    sysm = {0: np.broadcast_to(px[-1], (n, *px[-1].shape)).copy()}
                    for e in trans:
                        k = m.time_index(e['t'])
                        if not c.expect(0 <= k < K, 'transition sampled at an illegitimate time', **d):
                            continue
                        sysm[k + 1] = e['out'].copy()
                        if not marg:
                            c.close(e['v'], py[K - k], 'transition conditions on the noised observation path', k=k, **d)
                    c.expect(sorted(sysm) == list(range(K + 1)), 'transition sampled at every step', **d)
                    for k in sysm:
                        if sysm[k].shape[0] == n:
                            sysm[k][bs[k]] = px[K - k]
                    for e in trans:
                        k = m.time_index(e['t'])
                        if 0 <= k < K and k in sysm:
                            c.expect(members(e['us'].reshape(e['us'].shape[0], -1), sysm[k].reshape(sysm[k].shape[0], -1)),
                                     'particles (including the retained noised path) are propagated', k=k, **d)
                            c.ev('particles_traced', n)
                    for e in lik:
                        k = m.time_index(e['t'])
                        if not c.expect(0 <= k < K, 'likelihood at an illegitimate time', **d):
                            continue
                        if not marg:
                            c.close(e['v'], py[K - k - 1], 'likelihood of the noised observation path', k=k, **d)
                            c.close(e['vp'], py[K - k], 'likelihood given the previous noised observation', k=k, **d)
                        else:
                            c.expect(np.isfinite(e['v']).all(), 'bridge is finite', **d)
                            if k == K - 1:
                                c.close(e['v'], y0, 'the bridged observation path ends at y_0', **d)
                            if k == 0:
                                c.close(e['vp'], py[-1], 'the bridged observation path starts at the noised observation', **d)
                    if eb:
                        second = [e for e in f if e is not first[0]]
                        if second:
                            c.close(second[0]['x'], x1, 'the new trajectory is noised from the new x_0', **d)
                            c.close(us, second[0]['px'][::-1], 'returned trajectory is the new noised path', **d)
                        if K in sysm:
                            c.expect(members(x1.reshape(1, -1), sysm[K].reshape(n, -1)), 'the new x_0 is one of the final particles', **d)
                    else:
                        for k in range(K + 1):
                            c.close(us[k], sysm[k][nb[k]], 'the returned trajectory consists of the particles at the returned indices', k=k, **d)
                    c.expect(all(e.get('kw', 1) for _, e in ev), 'the keyword arguments reach every model function', **d)
                    keys_distinct(c, ev, 'Gibbs kernel', **d)
    finally:
        jax.config.update('jax_enable_x64', False)


def initialisation(c):
    """gibbs_init: filter / smoother initialisation from a forward noised observation."""
    jax.config.update('jax_enable_x64', True)
    try:
        for K, n, shape, kw, marg in ((3, 6, (), {}, False), (2, 5, (2,), {'extra': 1.}, False), (3, 4, (2,), {}, True)):
            m = Particles(c.rng, K, (*shape,), (*shape, 2), kw)
            m.ts = np.linspace(0., 1., K + 1)
            y0 = c.rng.normal(size=(*shape, 2))

            def fwd_sampler(key, x, y, **k):
                px = jnp.concatenate([x[None], jax.random.normal(key, (K, *x.shape))])
                py = jnp.concatenate([y[None], jax.random.normal(jax.random.fold_in(key, 1), (K, *y.shape))])
                m.rec.emit('fwd', key=key, x=x, y=y, px=px, py=py, kw=m.check_kw(k))
                return px, py

            for method in ('filter', 'smoother', 'debug'):
                for xin in (None, c.rng.normal(size=(*shape, 2))):
                    def run(key):
                        return gibbs_init(key, jnp.asarray(y0), (*shape, 2), jnp.asarray(m.ts), fwd_sampler, SDE, lambda xy, **k: xy, m.transition_sampler,
                                          m.trans_logpdf, m.lik, n, method=method, marg_y=marg, x0=None if xin is None else jnp.asarray(xin), **kw)
                    key = c.key()
                    d = dict(K=K, n=n, shape=shape, method=method, marg_y=marg, x0_given=xin is not None)
                    x, us = jax.jit(run)(key)
                    ev = m.rec.collect()
                    c.ev('callback_events', len(ev))
                    c.case('init', d)
                    f = by_name(ev, 'fwd')
                    first = [e for e in f if same(e['x'], np.zeros((*shape, 2)) if xin is None else xin)]
                    if not c.expect(len(first) == 1 and all(same(e['y'], y0) for e in f), 'the observation is noised together with the given x_0 (zeros by default)', **d):
                        continue
                    py = first[0]['py']
                    sysm = {}
                    for e in by_name(ev, 'trans'):
                        k = m.time_index(e['t'])
                        if c.expect(0 <= k < K, 'illegitimate time', **d):
                            sysm[k + 1] = e['out']
                            if not marg:
                                c.close(e['v'], py[K - k], 'transition conditions on the noised observation', k=k, **d)
                    for e in by_name(ev, 'lik'):
                        k = m.time_index(e['t'])
                        if c.expect(0 <= k < K, 'illegitimate time', **d):
                            if not marg:
                                c.close(e['v'], py[K - k - 1], 'likelihood of the noised observation', k=k, **d)
                                c.close(e['vp'], py[K - k], 'likelihood given the previous noised observation', k=k, **d)
                            elif k == K - 1:
                                c.close(e['v'], y0, 'the bridged observation path ends at y_0', **d)
                    c.expect(all(e.get('kw', 1) for _, e in ev), 'the keyword arguments reach every model function', **d)
                    x = np.asarray(x)
                    if method == 'debug':
                        c.expect(us is None and x.shape == (K + 1, n, *shape, 2), 'debug returns the filter path', **d)
                        continue
                    us = np.asarray(us)
                    c.expect(x.shape == (*shape, 2) and us.shape == (K + 1, *shape, 2), 'shapes', got=(x.shape, us.shape), **d)
                    c.expect(members(x.reshape(1, -1), sysm[K].reshape(n, -1)), 'x_0 is a final filter particle', **d)
                    if method == 'filter':
                        sec = [e for e in f if e is not first[0] and same(e['x'], x)]
                        c.expect(len(sec) == 1 and same(us, sec[0]['px'][::-1]), 'trajectory is a forward path from the new x_0', **d)
                    else:
                        for k in range(1, K + 1):
                            c.expect(members(us[k].reshape(1, -1), sysm[k].reshape(n, -1)), 'smoothed trajectory consists of filter particles', k=k, **d)
            try:
                gibbs_init(c.key(), jnp.asarray(y0), (*shape, 2), jnp.asarray(m.ts), fwd_sampler, SDE, lambda xy, **k: xy, m.transition_sampler,
                           m.trans_logpdf, m.lik, n, method='nonsense', marg_y=False, **kw)
                c.fail('unknown initialisation method is accepted')
            except ValueError:
                c.ev('assertions')
            m.rec.collect()
    finally:
        jax.config.update('jax_enable_x64', False)


run_sections(
    Check('C08', 'Reversed finite noising chains with exact joint law (invariance of the returned trajectory, chained kernels, both '
          'backward modes), provenance-carrying particles (coherence, initialisation); non-trivial = distinct model / configuration / key',
          ['explicit_final=False (the default): with explicit_final=True the kernel is an approximation and is not claimed']),
    [*parts(invariance, 5), mixing, coherence, initialisation], kernel_laws=4, callback_events=50, particles_traced=20)
