"""C09: the particle MCMC kernel (independent and pCN proposals) targets p(u_T | y_0) and reports what it did."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib.core import *
import jax
import jax.numpy as jnp
from functools import partial
from lib.monitor import *
from fbs.samplers import pmcmc_kernel
from fbs.samplers.smc import pmcmc_filter_step, pcn_proposal
from fbs.samplers import resampling as rs
from fbs.sdes import StationaryConstLinearSDE, StationaryLinLinearSDE, make_linear_sde

RES = {'stratified': rs.stratified, 'systematic': rs.systematic, 'multinomial': rs.multinomial, 'killing': rs.killing}
SDE = StationaryConstLinearSDE(a=-.5, b=1.)


class Model(Finite):
    """Finite model with a random forward path of y: y_K-path index j has probability q_j."""

    def __init__(self, rng, npaths=3, **kw):
        super().__init__(rng, **kw)
        self.q = rng.dirichlet(np.ones(npaths) * 4)
        self.ypaths = rng.integers(0, self.Sv, (npaths, self.K + 1))
        while len({tuple(p) for p in self.ypaths}) < npaths:
            self.ypaths = rng.integers(0, self.Sv, (npaths, self.K + 1))
        # joint unnormalised mass of (path j, u_K)
        self.mass = np.zeros((npaths, self.Su))
        for j in range(npaths):
            P, w = self.gamma(self.ypaths[j][::-1])
            self.mass[j] = self.q[j] * np.bincount(P[:, -1], w, minlength=self.Su)

    def fwd_ys(self, key, y0):
        j = jax.random.choice(key, len(self.q), p=jnp.asarray(self.q, jnp.float32))
        return self.ex(jnp.asarray(self.ypaths)[j])

    def ref(self, key, v0, n):
        p = jnp.asarray(self.p0.T, jnp.float32)[self.ix(v0)]
        return self.ex(jax.random.choice(key, self.Su, (n,), p=p))

    # the y's have the shape of the u's
    def transition_sampler(self, us, v, t, key, **kw):
        return super().transition_sampler(us, self.ix(v), t, key)

    def lik(self, v, us, vp, t, **kw):
        return super().lik(self.ix(v), us, self.ix(vp), t)

    def path_ix(self, ys):
        return jnp.argmax(jnp.all(self.ix(ys)[None] == jnp.asarray(self.ypaths), axis=-1))

    def kernel(self, n, res, which_u=0):
        def k(key, uT, log_ell, ys):
            return pmcmc_kernel(key, uT, log_ell, ys, self.ex(jnp.asarray(0)), jnp.asarray(self.ts, jnp.float32), self.fwd_ys, SDE, self.ref,
                                self.transition_sampler, self.lik, res, n, delta=None, which_u=which_u)
        return k


def filter_trace(c):
    """The particle filter inside: what the callbacks are given, weights, likelihood, provenance of the particles."""
    jax.config.update('jax_enable_x64', True)
    cfgs = [dict(K=3, n=4, res='stratified'), dict(K=1, n=3, res='killing', vshape=(2,)), dict(K=5, n=6, shape=(2,), vshape=(2,), res='multinomial', kw={'e': 1.}),
            dict(K=4, n=5, shape=(2, 1), res='systematic', scale=20.)]
    if c.thorough:
        cfgs += [dict(K=int(c.rng.integers(1, 9)), n=int(c.rng.integers(1, 20)), shape=[(), (2,)][c.rng.integers(2)], vshape=[(), (3,)][c.rng.integers(2)],
                      res=c.rng.choice(list(RES))) for _ in range(20)]
    for cfg in cfgs:
        m = Particles(c.rng, cfg['K'], cfg.get('shape', ()), cfg.get('vshape', ()), cfg.get('kw'), scale=cfg.get('scale', 1.))
        n, K = cfg['n'], m.K
        u0 = m.init_sampler(c.key(), m.vs[0], n)
        m.rec.collect()
        args = (c.key(), jnp.asarray(m.vs), u0, jnp.asarray(m.ts), m.transition_sampler, m.lik, m.wrap_resampling(RES[cfg['res']]), n)
        uT, ell = pmcmc_filter_step(*args, **(m.kw or {}))
        ev = m.rec.collect()
        c.ev('callback_events', len(ev))
        c.case('filter trace', cfg)
        d = dict(config=cfg)
        val = lambda x: np.asarray(x).reshape(x.shape[0], -1, 2)[:, 0, 0]
        par = lambda x: np.asarray(x).reshape(x.shape[0], -1, 2)[:, 0, 1]
        trans, lik, res = (by_name(ev, e) for e in ('trans', 'lik', 'resample'))
        by = {}
        for nm, evs in (('trans', trans), ('lik', lik)):
            for e in evs:
                by.setdefault((nm, m.time_index(e['t'])), []).append(e)
                c.expect(bool(e['kw']), f'pMCMC filter {nm}: extra keyword arguments are forwarded', **d)
        if not c.expect(sorted(by) == sorted([(a, k) for a in ('trans', 'lik') for k in range(K)]),
                        'pMCMC filter: callbacks are evaluated at t_0 ... t_(K-1) exactly', got=sorted(by), **d):
            continue
        cur, want = np.asarray(u0), 0.
        left = list(res)
        for k in range(K):
            lw = m.h_lik(np, m.vs[k + 1], cur, m.vs[k], m.ts[k])
            for e in by['lik', k]:
                c.close(e['v'], m.vs[k + 1], 'pMCMC filter: measurement', k=k, **d)
                c.close(e['vp'], m.vs[k], 'pMCMC filter: previous measurement', k=k, **d)
                c.expect(members(val(e['us']), val(cur)), 'pMCMC filter: likelihood of particles that are not those of step k', k=k, **d)
            want += lse(lw) - np.log(n)
            w = norm_w(lw)
            hit = [e for e in left if np.allclose(e['w'], w, rtol=1e-9, atol=1e-12)]
            e = by['trans', k][-1]
            c.close(e['v'], m.vs[k], 'pMCMC filter: transition conditioned on v_k', k=k, **d)
            if c.expect(len(hit) > 0, 'pMCMC filter: resampling weights are not the normalised likelihoods', k=k, **d):
                ok = any(same(val(cur)[h['idx']], par(e['out'])) for h in hit) if e['us'].shape == e['out'].shape else False
                alt = [same(val(cur), val(e['us']))]  # propagate first and resample after is as good
                c.expect(ok or any(alt), 'pMCMC filter: the resampled particles are not the ones propagated', k=k, **d)
            cur = np.asarray(e['out'])
            c.ev('particles_traced', n)
        c.expect(members(val(uT), val(cur)), 'pMCMC filter: terminal particles', **d)
        c.close(ell, want, 'pMCMC filter: log likelihood', **d)
        keys_distinct(c, ev, 'pMCMC filter', **d)
    jax.config.update('jax_enable_x64', False)


def keywords(c):
    """Extra keyword arguments of the kernel reach the model functions, for every kind of proposal."""
    K, n = 3, 4
    ts, ys = jnp.linspace(0., 1., K + 1), jnp.asarray(c.rng.normal(size=(K + 1, 2)))
    for delta in (None, .3):
        seen = {'trans': [], 'lik': []}

        def trans(u, v, t, key, **kw):
            jax.debug.callback(lambda z: seen['trans'].append(float(z)), jnp.sum(kw.get('mask_', jnp.zeros(1))))
            return u + jax.random.normal(key, u.shape)

        def lik(v, u, vp, t, **kw):
            jax.debug.callback(lambda z: seen['lik'].append(float(z)), jnp.sum(kw.get('mask_', jnp.zeros(1))))
            return -jnp.sum((u - v) ** 2, -1)

        pmcmc_kernel(c.key(), jnp.zeros(2), -3., ys, ys[0], ts, lambda k, y0: y0 + jax.random.normal(k, (K + 1, 2)), SDE,
                     lambda k, v0, n_: jax.random.normal(k, (n_, 2)), trans, lik, RES['stratified'], n, delta=delta, which_u=0, mask_=jnp.full(3, 5.))
        jax.effects_barrier()
        c.case('keywords', {'delta': delta})
        for what, got in seen.items():
            c.expect(len(got) >= K and all(g == 15. for g in got), f'pMCMC kernel: keyword arguments reach the {what} function', delta=delta, got=got)


def unbiased(c):
    """Proposal mechanism: E[exp(prop_log_ell) 1{uT, ys}] is the joint unnormalised target, for every choice of particle."""
    cfgs = [(dict(K=2, Su=2, Sv=2, conc=.4), 2, 'stratified', 0), (dict(K=2, Su=3, Sv=2, conc=.5), 4, 'systematic', 0),
            (dict(K=3, Su=2, Sv=2, conc=.4), 3, 'multinomial', 2), (dict(K=1, Su=3, Sv=3, conc=.5), 5, 'killing', 1)]
    if c.thorough:
        cfgs += [(dict(K=int(c.rng.integers(1, 5)), Su=int(c.rng.integers(2, 4)), Sv=2, conc=.4), int(n), str(r), int(c.rng.integers(n)))
                 for n in (1, 3, 8) for r in RES]
    for q, (s, n, r, w) in enumerate(cfgs):
        m = Model(c.rng, **s, shape=(2,) if q == 2 else ())
        ker = m.kernel(n, RES[r], w)
        Z = m.mass.sum()

        def one(key):
            u, ell, ys, st = ker(key, m.ex(jnp.asarray(0)), -jnp.inf, m.ex(jnp.zeros(m.K + 1, int)))
            z = jnp.exp(ell)
            return z * (jax.nn.one_hot(m.path_ix(ys), len(m.q))[:, None] * jax.nn.one_hot(m.ix(u), m.Su)).ravel() / Z

        c.case('proposal law', {'model': s, 'n': n, 'res': r, 'which_u': w})
        c.ev('kernel_laws')
        c.mean(f'pMCMC proposal: E[exp(log_ell) 1(u_T, ys)] (n={n}, {r}, which_u={w})', vdraw(one), m.mass.ravel() / Z,
               R=300_000 if not c.thorough else 1_000_000, abs_tol=3e-6, model=s)


def chain(c):
    """Long chains in parallel reach exactly p(u_T | y_0) and p(ys | u_T, y_0)."""
    for q, (s, n, r) in enumerate([(dict(K=2, Su=2, Sv=2, conc=4.), 4, 'stratified'), (dict(K=2, Su=3, Sv=2, conc=4.), 6, 'systematic')]
                                  + ([(dict(K=3, Su=2, Sv=3, conc=4.), 8, 'killing'), (dict(K=4, Su=3, Sv=2, conc=4.), 10, 'multinomial')] if c.thorough else [])):
        m = Model(c.rng, **s)
        ker = m.kernel(n, RES[r])
        law = (m.mass / m.mass.sum()).ravel()

        def one(key):
            def body(carry, k):
                u, ell, ys = carry
                u, ell, ys, st = ker(k, u, ell, ys)
                return (u, ell, ys), st.is_accepted
            (u, ell, ys), _ = jax.lax.scan(body, (jnp.zeros(()), -jnp.inf, jnp.zeros(m.K + 1)), jax.random.split(key, 80))
            return m.path_ix(ys) * m.Su + m.ix(u)

        c.case('chain', {'model': s, 'n': n, 'res': r})
        c.ev('kernel_laws')
        c.law(f'pMCMC chain (n={n}, {r})', vdraw(one), law, R=30_000 if not c.thorough else 200_000, model=s)


def metropolis(c):
    """One step from random states: the outputs are all the proposal or all the old state, and the state reports it."""
    for q in range(3 if not c.thorough else 12):
        s = dict(K=int(c.rng.integers(1, 4)), Su=3, Sv=2, conc=.6)
        m = Model(c.rng, **s, npaths=2)
        n = int(c.rng.integers(1, 6))
        ker = jax.jit(jax.vmap(m.kernel(n, RES[c.rng.choice(list(RES))])))
        R = 4000
        Z = np.log(m.mass.sum())
        ells = jnp.asarray(Z + c.rng.normal(size=R) * 1.5, jnp.float32)
        # marked old states, so that mixing old and new parts shows
        uo, yo = -1 - jnp.arange(R, dtype=jnp.float32), -1. - jnp.arange(R, dtype=jnp.float32)[:, None] * jnp.ones(m.K + 1)
        u, ell, ys, st = ker(jax.random.split(c.key(), R), uo, ells, yo)
        c.case('metropolis', {'model': s, 'n': n}, n=R)
        u, ell, ys, ells, acc, ap, pe, le = (np.asarray(a) for a in (u, ell, ys, ells, st.is_accepted, st.acceptance_prob, st.prop_log_ell, st.log_ell))
        d = dict(model=s, n=n)
        c.expect(acc.dtype == bool, 'is_accepted must be a flag', dtype=str(acc.dtype))
        acc = acc.astype(bool)
        c.ev('accepted', acc.sum()), c.ev('rejected', (~acc).sum())
        c.close(ap, np.exp(np.minimum(0, pe - ells)), 'acceptance probability is not min(1, exp(prop_log_ell - log_ell))', rtol=1e-4, atol=1e-6, **d)
        c.expect(np.allclose(le, ells) or np.allclose(le, ell), 'log_ell of the MCMC state', **d)
        c.expect(np.array_equal(u[~acc], np.asarray(uo)[~acc]) and np.array_equal(ell[~acc], ells[~acc]) and np.array_equal(ys[~acc], np.asarray(yo)[~acc]),
                 'a rejection must keep (u_T, log_ell, ys)', **d)
        c.expect(np.array_equal(ell[acc], pe[acc]) and (u[acc] >= 0).all() and (ys[acc] >= 0).all(), 'an acceptance must take all of (u_T, log_ell, ys)', **d)
        c.expect(acc[pe >= ells].all(), 'an improving proposal must be accepted', **d)
        z = (acc - ap)
        for nm, h in (('', np.ones(R)), (' given the state', np.asarray(ells) - Z), (' given the proposal', np.where(np.isfinite(pe), pe - Z, 0))):
            v = (ap * (1 - ap) * h ** 2).sum()
            c.expect(abs((z * h).sum()) < 6.5 * np.sqrt(v) + 1e-3 * R * np.abs(h).mean() * 1e-3 + 1, 'acceptance frequency differs from the acceptance probability' + nm,
                     got=float((z * h).sum()), sd=float(np.sqrt(v)), **d)
        # hopeless and certain
        u, ell, ys, st = ker(jax.random.split(c.key(), R), uo, jnp.full(R, 1e6), yo)
        c.expect(not np.asarray(st.is_accepted).any() and np.array_equal(u, uo), 'a proposal of no likelihood must be rejected', **d)
        u, ell, ys, st = ker(jax.random.split(c.key(), R), uo, jnp.full(R, -jnp.inf), yo)
        c.expect(np.asarray(st.is_accepted).all() and np.allclose(st.acceptance_prob, 1) and (np.asarray(u) >= 0).all(), 'log_ell = -inf must be left at once', **d)
        # independence of the proposal from the accept decision inputs: same key, different state, same proposal
        a = ker(jax.random.split(jax.random.PRNGKey(3), R), uo, jnp.full(R, -jnp.inf), yo)
        b = ker(jax.random.split(jax.random.PRNGKey(3), R), uo * 2, jnp.full(R, -1e8), yo * 3)
        c.expect(np.array_equal(a[0], b[0]) and np.array_equal(a[1], b[1]) and np.array_equal(a[2], b[2]), 'the independent proposal must not depend on the state', **d)


def pcn(c):
    """pCN: for Gaussian paths, reversible with respect to the path law, with autocorrelation 2 / (2 + delta)."""
    for d_, delta in ((1, .5), (3, 2.), (2, .01)) + (((4, 10.), (2, .2)) if c.thorough else ()):
        A = c.rng.normal(size=(d_, d_))
        mean = c.rng.normal(size=d_) * 2
        C = A @ A.T
        Aj, mj = jnp.asarray(A, jnp.float32), jnp.asarray(mean, jnp.float32)
        smp = lambda k: mj + Aj @ jax.random.normal(k, (d_,))
        b = 2 / (2 + delta)

        def one(key):
            k0, k1 = jax.random.split(key)
            x = smp(k0)
            y = pcn_proposal(k1, delta, x, mj, smp)
            X, Y = x - mj, y - mj
            # asymmetric statistic: reversibility of the joint law beyond second moments
            return jnp.concatenate([Y, jnp.outer(Y, Y).ravel(), jnp.outer(X, Y).ravel(), (jnp.sin(x[0]) * jnp.cos(2 * y[0] + 1) - jnp.sin(y[0]) * jnp.cos(2 * x[0] + 1))[None]])

        c.case('pcn', {'d': d_, 'delta': delta})
        c.ev('kernel_laws')
        c.mean('pCN proposal', vdraw(one), np.concatenate([np.zeros(d_), C.ravel(), b * C.ravel(), [0.]]), R=400_000, abs_tol=1e-4, delta=delta)


def pcn_chain(c):
    """The kernel with a pCN proposal on a linear Gaussian model whose target is known in closed form."""
    jax.config.update('jax_enable_x64', True)
    for sde, ts, delta, n in [(SDE, np.array([0., .4, 1.1]), 1., 12), (StationaryLinLinearSDE(beta_min=.2, beta_max=1.5, t0=0., T=1.5), np.array([.5, .8, 1.1, 1.5]), .4, 12)]:
        K, y0, x00 = len(ts) - 1, .8, .3
        a, b_, q, h, e, r = .8, .5, .6, .7, .3, 1.2
        disc, _, sim = make_linear_sde(sde)
        tsj = jnp.asarray(ts)
        fwd = lambda key, y: sim(key, y, tsj)
        kap = lambda t: 1 + .3 * t  # time dependence: wrong times, wrong target

        def trans(us, v, t, key):
            return a * us + b_ * v * kap(t) + q * jax.random.normal(key, us.shape)

        def lik(v, us, vp, t):
            return jnp.sum(jax.scipy.stats.norm.logpdf(v, h * us + e * vp * kap(t), r), axis=-1)

        ref = lambda key, v0, n_: x00 * v0 + jax.random.normal(key, (n_, 1))
        # exact: variables (ys_1..K, u_0..K); quadratic form of -log density
        dim = K + K + 1
        iy = lambda k: k - 1  # y at forward time k >= 1
        iu = lambda k: K + k
        P, hvec = np.zeros((dim, dim)), np.zeros(dim)

        def add(coef, const, var):  # (coef . z - const)^2 / (2 var)
            P[:] += np.outer(coef, coef) / var
            hvec[:] += coef * const / var

        def lin(pairs):
            co, cst = np.zeros(dim), 0.
            for kind, k, w in pairs:
                if kind == 'u':
                    co[iu(k)] += w
                elif k == 0:
                    cst -= w * y0
                else:
                    co[iy(k)] += w
            return co, cst

        for k in range(K):
            F, Q = (float(x) for x in disc(ts[k + 1], ts[k]))
            add(*lin([('y', k + 1, 1), ('y', k, -F)]), Q)
            kp = float(kap(ts[k]))
            # v_k = y_(K - k)
            add(*lin([('u', k + 1, 1), ('u', k, -a), ('y', K - k, -b_ * kp)]), q ** 2)
            add(*lin([('y', K - k - 1, 1), ('u', k, -h), ('y', K - k, -e * kp)]), r ** 2)
        add(*lin([('u', 0, 1), ('y', K, -x00)]), 1.)
        S = np.linalg.inv(P)
        mu = S @ hvec
        sel = [iu(K), iy(K)]
        want_m, want_C = mu[sel], S[np.ix_(sel, sel)]
        y0j = jnp.array([y0])

        def one(key):
            k0, k1 = jax.random.split(key)

            def body(carry, k):
                out = pmcmc_kernel(k, *carry, y0j, tsj, fwd, sde, ref, trans, lik, rs.stratified, n, delta=delta)
                return out[:3], out[3].is_accepted
            (u, ell, ys), acc = jax.lax.scan(body, (jnp.zeros(1), -jnp.inf, fwd(k0, y0j)), jax.random.split(k1, 60))
            z = jnp.stack([u[0], ys[-1, 0]]) - want_m
            return jnp.concatenate([z, jnp.outer(z, z).ravel(), (ys[0] - y0)])

        c.case('pcn chain', {'ts': ts, 'delta': delta, 'n': n})
        c.ev('kernel_laws')
        c.mean('pMCMC kernel with pCN proposal: moments of (u_T, y_T)', vdraw(one), np.concatenate([[0., 0.], want_C.ravel(), [0.]]),
               R=20_000, abs_tol=4e-3, delta=delta)
    jax.config.update('jax_enable_x64', False)


run_sections(
    Check('C09', 'Random finite models with random y paths x resampler x n x which_u; random MH states; random Gaussians x delta; a linear Gaussian '
          'model with exact target; non-trivial = distinct (model, n, resampler, delta)', ['resampling schemes are unbiased (C01)']),
    [filter_trace, keywords, unbiased, chain, metropolis, pcn, pcn_chain], kernel_laws=6, accepted=100, rejected=100, callback_events=20)
