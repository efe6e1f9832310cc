"""C06: the backward smoother draws from exactly the backward-simulation law of the filter particles it is given."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib.core import *
import itertools
import jax
jax.config.update('jax_enable_x64', True)
import jax.numpy as jnp
from lib.monitor import *
from fbs.samplers import bootstrap_filter
from fbs.samplers.smc import bootstrap_backward_smoother
from fbs.samplers.resampling import stratified, killing


def exact_law(m, fu, with_lik):
    K, n = m.K, fu.shape[1]
    out = np.zeros(n ** (K + 1))
    for code, path in enumerate(itertools.product(range(n), repeat=K + 1)):
        p = 1 / n
        for k in range(K):
            lw = m.h_trans(np, fu[k + 1, path[k + 1]], fu[k], m.vs[k], m.ts[k])
            if with_lik:
                lw = lw + m.h_lik(np, m.vs[k + 1], fu[k], m.vs[k], m.ts[k])
            p *= norm_w(lw)[path[k]]
        out[code] = p
    return out


def call(m, key, fu, with_lik, **kw):
    extra = dict(measurement_cond_logpdf=m.lik) if with_lik else {}
    return bootstrap_backward_smoother(key, jnp.asarray(fu), jnp.asarray(m.vs), jnp.asarray(m.ts), m.trans_logpdf, **extra, **m.kw)


def laws(c):
    cfgs = [(3, 3, ()), (1, 4, (2,)), (2, 5, (2, 1))] + ([(4, 3, ()), (5, 2, (3,)), (2, 8, ())] if c.thorough else [])
    for K, n, shape in cfgs:
        for with_lik in (False, True):
            m = Particles(c.rng, K, shape, (2,) if shape else (), kw={'a': 1.} if K == 2 else None)
            m.rec.emit = lambda *a, **k: None
            fu = c.rng.normal(size=(K + 1, n, *shape, 2))
            law = exact_law(m, fu, with_lik)

            def one(key):
                traj = call(m, key, fu, with_lik)
                d = jnp.abs(traj[:, None] - fu).reshape(K + 1, n, -1).max(-1)
                idx = jnp.argmin(d, 1)
                code = (idx * n ** np.arange(K, -1, -1)).sum()
                return jnp.where(jnp.min(d, 1).max() < 1e-9, code, -1)

            c.case('law', {'K': K, 'n': n, 'shape': shape, 'with_lik': with_lik, 'fu': fu.ravel()[:6]})
            c.law(f'smoother trajectory (K={K}, n={n})', vdraw(one), law, R=150_000 if not c.thorough else 1_500_000,
                  K=K, n=n, with_lik=with_lik)


def traces(c):
    for K, n, shape, vshape, kw in ((3, 4, (), (), None), (5, 3, (2,), (2,), {'extra': 2.}), (1, 6, (2, 2), (1, 2), None),
                                    (4, 1, (), (), None)):
        m = Particles(c.rng, K, shape, vshape, kw)
        fu = c.rng.normal(size=(K + 1, n, *shape, 2))
        for with_lik in (False, True):
            run = lambda key: call(m, key, fu, with_lik)
            j = jax.jit(run)
            for rep in range(6 if c.thorough else 3):
                key = c.key()
                d = dict(K=K, n=n, shape=shape, with_lik=with_lik, seedkey=np.asarray(key))
                traj = np.asarray(j(key))
                ev = m.rec.collect()
                if rep == 0:
                    with jax.disable_jit():
                        te = np.asarray(run(key))
                    ev2 = m.rec.collect()
                    c.close(te, traj, 'eager and jitted executions agree', rtol=1e-9, **d)
                    c.expect(len(ev2) > 0, 'eager trace', **d)
                c.ev('callback_events', len(ev))
                c.case('trace', d)
                if not c.expect(traj.shape == (K + 1, *shape, 2), 'trajectory shape', got=traj.shape, **d):
                    continue
                for k in range(K + 1):
                    c.expect(members(traj[k].reshape(1, -1), fu[k].reshape(n, -1)), 'trajectory leaves the filter particles', k=k, **d)
                seen = set()
                for e in by_name(ev, 'tlogpdf') + by_name(ev, 'lik'):
                    k = m.time_index(e['t'])
                    if not c.expect(0 <= k < K, 'density evaluated at an illegitimate time', t=e['t'], **d):
                        continue
                    c.expect(bool(e['kw']), 'keyword arguments are forwarded', **d)
                    c.close(e['us'], fu[k], 'density evaluated at the particles of step k', k=k, **d)
                    if 'u' in e:
                        seen.add(k)
                        c.close(e['u'], traj[k + 1], 'transition density conditioned on the chosen successor', k=k, **d)
                        c.close(e['v'], m.vs[k], 'transition density given v_k', k=k, **d)
                    else:
                        c.close(e['v'], m.vs[k + 1], 'measurement density of v_(k+1)', k=k, **d)
                        c.close(e['vp'], m.vs[k], 'measurement density given v_k', k=k, **d)
                c.expect(seen == set(range(K)), 'transition density evaluated at every step', seen=seen, **d)


def unreachable(c):
    """Particles from which the successor cannot be reached are never chosen, however many they are and however unlikely everything is."""
    K, n, R = 20, 50, 20_000 if not c.thorough else 400_000
    for off, bad in ((0., -np.inf), (-4000., -np.inf), (3000., -800.), (-1e5, -1000.)):
        # a particle is a class (and an identity): only particles of the same class can be linked
        cls = np.stack([c.rng.permutation(n) % 5 for _ in range(K + 1)])
        fu = np.stack([cls, np.tile(np.arange(n), (K + 1, 1))], -1).astype(float)
        ts, vs = np.arange(K + 1.), np.zeros((K + 1, 1))
        tl = lambda u, us, v, t: jnp.where(us[:, 0] == u[0], off, off + bad)
        ml = lambda v, us, vp, t: jnp.where(us[:, 1] % 10 == 3, off + bad / 2, off)
        for with_lik in (False, True):
            extra = dict(measurement_cond_logpdf=ml) if with_lik else {}
            tr = np.asarray(vdraw(lambda key: bootstrap_backward_smoother(key, jnp.asarray(fu), jnp.asarray(vs), jnp.asarray(ts), tl, **extra))(c.key(), R))
            wrong = int((tr[:, :-1, 0] != tr[:, 1:, 0]).sum())
            c.ev('selections', R * K)
            c.case('unreachable', {'offset': off, 'penalty': bad, 'with_lik': with_lik})
            d = dict(offset=off, penalty=bad, with_lik=with_lik, draws=R * K)
            c.expect(wrong <= 5e-6 * R * K, 'a particle that cannot reach the successor is chosen', count=wrong, **d)
            if with_lik:
                # (a class may consist of such particles only: then there is nothing else to choose)
                forb = tr[:, :-1, 1] % 10 == 3
                alt = np.array([[((cls[k] == a) & (np.arange(n) % 10 != 3)).any() for a in range(5)] for k in range(K)])
                ok = alt[np.arange(K)[None], tr[:, 1:, 0].astype(int)]
                c.expect((forb & ok).sum() <= 5e-6 * R * K, 'a particle that cannot explain the measurement is chosen', **d)
            # uniform among the admissible particles
            adm = np.array([[[(cls[k] == a) & ((np.arange(n) % 10 != 3) | (not with_lik))] for a in range(5)] for k in range(K)])[:, :, 0]
            k = K // 2
            a = int(tr[0, k + 1, 0])
            sel = tr[tr[:, k + 1, 0] == a][:, k, 1].astype(int)
            e = adm[k, a] / max(adm[k, a].sum(), 1)
            if adm[k, a].any():
                o = np.bincount(sel, minlength=n) / len(sel)
                c.close(o, e, 'admissible particles of equal density are chosen equally often', rtol=0, atol=7 * np.sqrt(e.max() / len(sel)) + 1e-4, **d)


def smoothing_distribution(c):
    """Filter then smoother on finite models: the trajectory follows p(u_0:K | v_0:K) up to O(1 / n)."""
    for s in [dict(K=2, Su=2, Sv=2, conc=.3), dict(K=3, Su=2, Sv=2, conc=.5)] + ([dict(K=2, Su=3, Sv=2, conc=.4)] * 3 if c.thorough else []):
        m = Finite(c.rng, **s)
        vs = c.rng.integers(0, m.Sv, m.K + 1)
        P, w = m.gamma(vs)
        vsj, tsj = jnp.asarray(vs, jnp.float32), jnp.asarray(m.ts, jnp.float32)
        n, R = 400, 4000 if not c.thorough else 20000

        def one(key):
            k1, k2 = jax.random.split(key)
            us, _ = bootstrap_filter(m.transition_sampler, m.lik, vsj, tsj, lambda k, v0, n_: m.init_given(vs[0])(k, n_), k1, n,
                                     stratified, log=True, return_last=False)
            tr = bootstrap_backward_smoother(k2, us, vsj, tsj, m.transition_logpdf, measurement_cond_logpdf=m.lik)
            return (m.ix(tr) * m.Su ** np.arange(m.K, -1, -1)).sum()

        x = np.bincount(np.asarray(vdraw(one)(c.key(), R)), minlength=len(P)) / R
        c.case('smoothing distribution', {'model': s, 'vs': vs})
        c.close(x, w / w.sum(), 'smoothing distribution', rtol=0, atol=.06 if not c.thorough else .04, model=s, vs=vs)


run_sections(
    Check('C06', 'Random filter particles and density tables; oracle: enumerated law over all n^(K+1) trajectories; traces of the '
          'density callbacks; non-trivial = distinct particles / key'),
    [laws, traces, unreachable, smoothing_distribution], callback_events=30, law_draws=1000, selections=100_000)
