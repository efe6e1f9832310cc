"""C07: the conditional SMC kernel: invariance of the smoothing distribution, and the genealogy it produces."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib.core import *
import jax
import jax.numpy as jnp
from lib.monitor import *
from fbs.samplers.csmc.csmc import csmc_kernel, forward_pass
from fbs.samplers.csmc.resamplings import killing, multinomial

RES = {'killing': killing, 'multinomial': multinomial}


def target(m, vs, l0):
    P, w = m.gamma(vs)
    w = w * np.exp(l0)[P[:, 0]]
    return P, w / w.sum()


def kernel(m, vs, l0, res, N, backward):
    vsj, tsj = jnp.asarray(vs, jnp.float32), jnp.asarray(m.ts, jnp.float32)

    def init_lik(v0, u0, v1, **kw):
        ok = (v0 == vs[0]) & (v1 == vs[1])
        return jnp.where(ok, jnp.asarray(l0, jnp.float32)[m.ix(u0)], jnp.asarray(l0[::-1].copy(), jnp.float32)[m.ix(u0)])

    return lambda key, us, bs: csmc_kernel(key, us, bs, vsj, tsj, m.init_given(vs[0]), init_lik, m.transition_sampler,
                                           m.transition_logpdf, m.lik, RES[res], N, backward=backward)


def invariance(c):
    """u* ~ target, any reference indices: one (and two chained) kernel steps leave the target unchanged."""
    cfgs = [(dict(K=3, Su=2, Sv=2, conc=.4), 'killing', 1), (dict(K=2, Su=3, Sv=2, conc=.3), 'multinomial', 2),
            (dict(K=2, Su=2, Sv=3, conc=.4), 'killing', 3)]
    if c.thorough:
        cfgs += [(dict(K=4, Su=2, Sv=2, conc=.4), 'killing', 2), (dict(K=3, Su=2, Sv=2, conc=.3), 'multinomial', 1),
                 (dict(K=1, Su=3, Sv=3, conc=.3), 'killing', 2), (dict(K=3, Su=3, Sv=2, conc=.5), 'multinomial', 4)]
    for s, res, N in cfgs:
        m = Finite(c.rng, **s, shape=(2,) if N == 2 else ())
        vs = c.rng.integers(0, m.Sv, m.K + 1)
        if vs[0] == vs[1]:
            vs[1] = (vs[0] + 1) % m.Sv
        l0 = c.rng.normal(size=m.Su)
        P, pi = target(m, vs, l0)
        for backward in (False, True):
            ker = kernel(m, vs, l0, res, N, backward)
            for mode in ('random', 'fixed', 'chained'):
                if mode == 'chained' and not c.thorough and N != 3:
                    continue
                fixed = c.rng.integers(0, N + 1, m.K + 1)

                def one(key):
                    k1, k2, k3, k4 = jax.random.split(key, 4)
                    us = m.ex(jnp.asarray(P)[jax.random.choice(k1, len(P), p=jnp.asarray(pi, jnp.float32))])
                    bs = jnp.asarray(fixed) if mode == 'fixed' else jax.random.randint(k3, (m.K + 1,), 0, N + 1)
                    us, bs = ker(k2, us, bs)
                    if mode == 'chained':
                        us, bs = ker(k4, us, bs)
                    code = (m.ix(us) * m.Su ** np.arange(m.K, -1, -1)).sum()
                    return jnp.where((bs.min() >= 0) & (bs.max() <= N), code, -1)

                c.ev('kernel_laws')
                c.case('invariance', {'model': s, 'vs': vs, 'res': res, 'N': N, 'backward': backward, 'mode': mode})
                c.law(f'cSMC invariance ({res}, N={N}, backward={backward}, {mode} indices)', vdraw(one), pi,
                      R=300_000 if not c.thorough else 1_500_000, model=s, vs=vs, l0=l0)


def mixing(c):
    """With many particles one step from any fixed reference is nearly a draw from the target (the kernel moves)."""
    for backward in (False, True):
        for res in RES:
            m = Finite(c.rng, K=2, Su=2, Sv=2, conc=.5)
            vs = np.array([0, 1, 1])
            l0 = c.rng.normal(size=2)
            P, pi = target(m, vs, l0)
            ref = P[int(np.argmin(pi))]
            N, R = 300, 4000
            ker = kernel(m, vs, l0, res, N, backward)

            def one(key):
                k1, k2 = jax.random.split(key)
                us, bs = ker(k1, m.ex(jnp.asarray(ref)), jax.random.randint(k2, (m.K + 1,), 0, N + 1))
                return (m.ix(us) * 2 ** np.arange(m.K, -1, -1)).sum()

            x = np.bincount(np.asarray(vdraw(one)(c.key(), R)), minlength=len(P)) / R
            c.case('mixing', {'res': res, 'backward': backward, 'ref': ref})
            c.close(x, pi, f'cSMC with {N} particles ({res}, backward={backward}) is far from its target', rtol=0, atol=.06, ref=ref)


def genealogy(c):
    jax.config.update('jax_enable_x64', True)
    try:
        cfgs = [dict(K=3, N=3, shape=(), vshape=()), dict(K=1, N=2, shape=(2,), vshape=(2,), kw={'extra': 1.}),
                dict(K=5, N=6, shape=(2, 1), vshape=(3,)), dict(K=4, N=1, shape=(), vshape=())]
        if c.thorough:
            cfgs += [dict(K=int(c.rng.integers(1, 9)), N=int(c.rng.integers(1, 20)), shape=[(), (2,), (2, 2)][c.rng.integers(3)],
                          vshape=[(), (2,)][c.rng.integers(2)]) for _ in range(15)]
        for r, cfg in enumerate(cfgs):
            K, N = cfg['K'], cfg['N']
            m = Particles(c.rng, K, cfg['shape'], cfg['vshape'], cfg.get('kw'))
            res = ('killing', 'multinomial')[r % 2]
            nd = len(m.shape)

            def init_sampler(key, n):
                x = jax.random.normal(key, (n, *m.shape))
                out = jnp.stack([x, jnp.full_like(x, 1e6)], -1)
                m.rec.emit('init', key=key, n=n, out=out)
                return out

            def init_lik(v0, u0, v1, **kw):
                m.rec.emit('init_lik', v=v0, us=u0, v1=v1)
                return m.h_lik(jnp, v0, u0, v1, 11.3)

            ref = c.rng.normal(size=(K + 1, *m.shape, 2))
            bs = c.rng.integers(0, N + 1, K + 1)
            args = (jnp.asarray(ref), jnp.asarray(bs), jnp.asarray(m.vs), jnp.asarray(m.ts), init_sampler, init_lik, m.transition_sampler)
            cres = m.wrap_cond_resampling(RES[res])
            fwd = jax.jit(lambda key: forward_pass(key, *args, m.lik, cres, N, **m.kw))
            kers = {b: jax.jit(lambda key, b=b: csmc_kernel(key, *args, m.trans_logpdf, m.lik, cres, N, backward=b, **m.kw)) for b in (False, True)}
            for rep in range(3):
                key = c.key()
                d = dict(config=cfg, res=res, bs=bs, seedkey=np.asarray(key))
                As, lws, uss = map(np.asarray, fwd(key))
                ev = m.rec.collect()
                c.case('forward genealogy', d)
                c.ev('callback_events', len(ev))
                if not c.expect(As.shape == (K, N + 1) and lws.shape == (K + 1, N + 1) and uss.shape == (K + 1, N + 1, *m.shape, 2),
                                'forward pass shapes', got=(As.shape, lws.shape, uss.shape), **d):
                    continue
                c.expect(As.min() >= 0 and As.max() <= N, 'ancestor out of range', **d)
                c.close(lws[0], np.log(norm_w(m.h_lik(np, m.vs[0], uss[0], m.vs[1], 11.3))), 'initial log weights', rtol=1e-8, **d)
                for k in range(K + 1):
                    c.close(uss[k, bs[k]], ref[k], 'the reference trajectory is retained at its indices', k=k, **d)
                    if k:
                        A = As[k - 1]
                        c.expect(A[bs[k]] == bs[k - 1], 'the ancestor of the reference particle is the reference particle', k=k, **d)
                        pars = uss[k - 1][A]
                        oth = np.arange(N + 1) != bs[k]
                        c.close(uss[k][oth][..., 1], pars[oth][..., 0], 'particles descend from their recorded ancestors', k=k, **d)
                        want = np.log(norm_w(m.h_lik(np, m.vs[k], pars, m.vs[k - 1], m.ts[k - 1])))
                        c.close(lws[k], want, 'log weights are the normalised measurement densities of the ancestors', k=k, rtol=1e-8, **d)
                        c.ev('particles_traced', N + 1)
                check_events(c, m, ev, N, bs, d, uss, lws, As)
                for b, ker in kers.items():
                    xs, nb = map(np.asarray, ker(key))
                    ev = m.rec.collect()
                    c.ev('callback_events', len(ev))
                    d2 = dict(d, backward=b)
                    c.case('kernel genealogy', d2)
                    if not c.expect(xs.shape == ref.shape and nb.shape == (K + 1,), 'kernel output shapes', **d2):
                        continue
                    c.expect(nb.min() >= 0 and nb.max() <= N, 'returned indices out of range', **d2)
                    for nm, e in ev:
                        c.expect(bool(e.get('kw', 1)), f'kernel, {nm}: keyword arguments are forwarded', **d2)
                    # the particle system, reconstructed from the recorded draws
                    sysm = {0: by_name(ev, 'init')[0]['out'].copy()}
                    for e in by_name(ev, 'trans'):
                        sysm[m.time_index(e['t']) + 1] = e['out'].copy()
                    c.expect(sorted(sysm) == list(range(K + 1)), 'transition sampled at every step', got=sorted(sysm), **d2)
                    for k in range(K + 1):
                        sysm[k][bs[k]] = ref[k]
                        c.close(xs[k], sysm[k][min(max(nb[k], 0), N)], 'returned state is the particle at the returned index', k=k, **d2)
                        if k and not b:
                            isref, pref = nb[k] == bs[k], nb[k - 1] == bs[k - 1]
                            if isref:
                                c.expect(pref, 'the lineage of the reference is the reference', k=k, **d2)
                            else:
                                c.close(xs[k][..., 1], xs[k - 1][..., 0], 'returned trajectory is not a lineage', k=k, **d2)
                    if b:
                        for e in by_name(ev, 'tlogpdf'):
                            k = m.time_index(e['t'])
                            if c.expect(0 <= k < K, 'backward density at an illegitimate time', **d2):
                                c.close(e['u'], xs[k + 1], 'backward pass conditions on the chosen successor', k=k, **d2)
                                c.close(e['us'], sysm[k], 'backward pass weighs the particles of its step', k=k, **d2)
                                c.close(e['v'], m.vs[k], 'backward pass uses v_k', k=k, **d2)
    finally:
        jax.config.update('jax_enable_x64', False)


def check_events(c, m, ev, N, bs, d, uss, lws, As):
    K = m.K
    keys_distinct(c, ev, 'cSMC', **d)
    init, il = by_name(ev, 'init'), by_name(ev, 'init_lik')
    c.expect(len(init) == 1 and int(init[0]['n']) == N + 1, 'initial sampler called once for N + 1 particles', **d)
    for e in il:
        c.close(e['v'], m.vs[0], 'initial likelihood of v_0', **d)
        c.close(e['v1'], m.vs[1], 'initial likelihood given v_1', **d)
        c.close(e['us'], uss[0], 'initial likelihood of the initial particles', **d)
    for nm in ('trans', 'lik'):
        ks = set()
        for e in by_name(ev, nm):
            k = m.time_index(e['t'])
            ks.add(k)
            c.expect(bool(e['kw']), f'{nm}: keyword arguments are forwarded', **d)
            if 0 <= k < K:
                c.close(e['v'] if nm == 'trans' else e['vp'], m.vs[k], f'{nm}: given v_k', k=k, **d)
                c.close(e['us'], uss[k][As[k]], f'{nm}: given the resampled particles of step k', k=k, **d)
                if nm == 'lik':
                    c.close(e['v'], m.vs[k + 1], 'lik: measurement v_(k+1)', k=k, **d)
        c.expect(ks == set(range(K)), f'{nm}: evaluated at t_0 .. t_(K-1)', got=sorted(ks), **d)
    res = by_name(ev, 'resample')
    c.expect(len(res) == K, 'one conditional resampling per step', got=len(res), **d)
    for k in range(K):
        hit = [e for e in res if same(e['w'], np.exp(lws[k]), 1e-8) and int(e['i']) == bs[k] and int(e['j']) == bs[k + 1]
               and bool(e['cond']) and np.array_equal(e['idx'], As[k])]
        c.expect(len(hit) >= 1, 'conditional resampling with the normalised weights and reference indices of step k', k=k, **d)


run_sections(
    Check('C07', 'Finite models with exact laws (invariance, chained kernels, fixed / random reference indices, both backward modes) '
          'and provenance-carrying particles (genealogy); non-trivial = distinct model / configuration / key',
          ['number of particles N + 1 >= 2']),
    [invariance, mixing, genealogy], kernel_laws=6, callback_events=50, particles_traced=50)
