"""C26: the synthetic experiments end to end: every script is run as a user runs it, in a scratch directory, with the library's entry points
wrapped by recorders (lib/script_driver.py). Oracles: what is saved against the exact Gaussian process posterior; the model that the script hands
to the library against the exact noising and its time reversal."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib.core import *
import glob
import subprocess
import tempfile

DRIVER = os.path.join(VERIF, 'lib', 'script_driver.py')


def run_script(c, script, args, folder):
    """-> (what the script saved, what the recorders saw) or None after a violation."""
    what = ' '.join([script, *args])
    with tempfile.TemporaryDirectory(prefix='verif-exp-') as tmp:
        os.makedirs(os.path.join(tmp, folder, 'results'))
        out = os.path.join(tmp, 'audit.npz')
        env = {k: v for k, v in os.environ.items() if not k.startswith('VERIF_')}
        env.update(PYTHONPATH=REPO, PYTHONDONTWRITEBYTECODE='1', JAX_PLATFORMS='cpu', MPLBACKEND='Agg')
        p = subprocess.run([sys.executable, '-W', 'ignore', DRIVER, out, os.path.join(REPO, 'experiments', script), *args],
                           cwd=tmp, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        c.ev('scripts_run')
        if p.returncode:
            tail = '\n'.join(l for l in p.stdout.splitlines() if not l.startswith('ID: '))[-3000:]
            if 'SCRIPT-DONE' not in p.stdout:
                c.fail(f'{what}: the experiment fails', output=tail)
                return None
            print(tail, flush=True)
            raise RuntimeError('the audit of the script failed')
        saved = glob.glob(os.path.join(tmp, folder, 'results', '*.npz'))
        if not c.expect(len(saved) == 1, f'{what}: the experiment saves its results in ./{folder}/results', saved=[os.path.basename(f) for f in saved]):
            return None
        with np.load(saved[0]) as f, np.load(out) as g:
            return {k: f[k] for k in f}, {k: g[k] for k in g}


def gp(d, obs_var):
    z = np.linspace(0., 5., d)
    C = np.exp(-np.abs(z[:, None] - z))
    J = np.block([[C, C], [C, C + obs_var * np.eye(d)]])
    return C, J, np.linalg.solve(C + obs_var * np.eye(d), C).T, C - C @ np.linalg.solve(C + obs_var * np.eye(d), C)


def posterior(c, what, saved, audit, d, obs_var, burn, tol, moments=True):
    """What is saved: the true posterior next to samples of it."""
    C, J, G, V = gp(d, obs_var)
    m = np.asarray(saved['gp_mean'], float)
    x = np.asarray(saved['samples'], float)
    c.close(saved['gp_cov'], V, f'{what}: the saved posterior covariance', rtol=1e-3, atol=2e-3)
    ys = audit['observed_y']
    if len(ys):
        c.ev('observations_recorded', len(ys))
        c.expect(len(ys) == 1 or np.ptp(ys, axis=0).max() < 1e-5, f'{what}: the observation changes during the experiment', ys=ys)
        c.close(m, G @ ys[0], f'{what}: the saved posterior mean given the observation that the sampler conditions on', rtol=1e-3, atol=2e-3)
    y0 = np.linalg.solve(G, m)
    white = np.linalg.solve(np.linalg.cholesky(C + obs_var * np.eye(d)), y0)
    c.expect(np.abs(white).max() < 6., f'{what}: the observation is not a draw from the model', y0=y0)
    if x.ndim == 2:
        x = x[:, None] if burn == 0 else np.stack(np.array_split(x[int(burn * len(x)):][:(len(x) - int(burn * len(x))) // 20 * 20], 20))
    else:
        x = x[:, int(burn * x.shape[1]):]
    c.ev('samples_judged', x.shape[0] * x.shape[1])
    if not c.expect(x.shape[-1] == d and np.all(np.isfinite(x)), f'{what}: saved samples', shape=x.shape):
        return
    if not moments:
        return
    e = x - m
    st = np.concatenate([e, np.einsum('cti,ctj->ctij', e, e).reshape(*e.shape[:2], -1) - V.ravel()], -1).mean(1)
    dev, se = st.mean(0), st.std(0, ddof=1) / math.sqrt(len(st))
    excess = (np.abs(dev) - np.r_[np.full(d, tol[0]), np.full(d * d, tol[1])]) / se
    i = int(np.argmax(excess))
    name = 'mean' if i < d else 'covariance'
    if os.environ.get('VERIF_TIMES'):
        print(what, 'mean dev', dev[:d].round(3), 'se', se[:d].round(3), 'cov dev', dev[d:].round(3), 'se', se[d:].round(3), flush=True)
    c.expect(excess[i] < 6., f'{what}: the {name} of the samples is not that of the posterior', component=i, deviation=dev[i], standard_error=se[i],
             tolerance=tol, chains=len(st))


def noise(sde):
    """exp of the integrated drift over [0, 1], by definition of the two processes"""
    F = math.exp(-.5 * (.02 + (4. - .02) / 2)) if sde == 'lin' else math.exp(-.5)
    return F, 1 - F ** 2


def model(c, what, a, d, obs_var, sde, tol):
    """The recorded model: spreads, agreement of samplers and densities, and the law at the end of the time-reversed chain."""
    C, J, G, V = gp(d, obs_var)
    for p in ('gibbs_kernel', 'pmcmc_kernel', 'bootstrap_filter'):
        if f'{p}_v_off' not in a:
            continue
        c.case('recorded model', {'script': what, 'call': p})
        ts = a[f'{p}_ts'].astype(float)
        K = len(ts) - 1
        dts = np.diff(ts)[::-1, None, None]   # chain step k covers forward time (ts[K - k - 1], ts[K - k))
        c.ev('steps_audited', K)
        tt = ts[:-1]
        beta = lambda t: .02 + (4. - .02) * t
        disp2 = (beta(ts[-1] - tt) if sde == 'lin' else np.ones(K))[:, None, None]
        want = disp2 * dts * np.eye(d)
        q = p + '_l' if f'{p}_l_off' in a else p
        c.close(a[f'{p}_v_cov'] / dts, want / dts, f'{what}: variance of the measurement model handed to {p}', rtol=2e-3, atol=2e-3)
        c.close(a[f'{p}_v_norm'], -.5 * np.linalg.slogdet(2 * np.pi * want)[1], f'{what}: normalisation of the measurement density handed to {p}', rtol=2e-3, atol=2e-2)
        if f'{p}_l_off' in a:
            c.close(a[f'{q}_cov'] / dts, want / dts, f'{what}: variance of the transition density handed to {p}', rtol=2e-3, atol=2e-3)
            c.close(a[f'{q}_norm'], -.5 * np.linalg.slogdet(2 * np.pi * want)[1], f'{what}: normalisation of the transition density handed to {p}', rtol=2e-3, atol=2e-2)
        if f'{p}_off' in a and f'{p}_l_off' in a:
            c.close(a[f'{p}_Au'], a[f'{q}_Au'], f'{what}: transition sampler and density handed to {p} (dependence on u)', rtol=1e-3, atol=1e-4)
            c.close(a[f'{p}_Av'], a[f'{q}_Av'], f'{what}: transition sampler and density handed to {p} (dependence on v)', rtol=1e-3, atol=1e-4)
            sd = np.sqrt(want[:, 0, 0])[:, None]
            c.close((a[f'{p}_off'] - a[f'{q}_off']) / sd, np.zeros((K, d)), f'{what}: mean of the transition sampler handed to {p}', atol=.12)
        if f'{p}_cov' in a:
            c.close(a[f'{p}_cov'] / want[:, :1, :1], np.broadcast_to(np.eye(d), (K, d, d)), f'{what}: spread of the transition sampler handed to {p}', atol=.16)
        # the law of (u, v) at the end of the chain is the joint law of (x_0, y_0)
        if sde is None:
            if f'gibbs_kernel_fwd_x' not in a:
                continue
            m, P = terminal(c, what, a, 'gibbs_kernel', J)
        else:
            F, Q = noise(sde)
            m, P = np.zeros(2 * d), F ** 2 * J + Q * np.eye(2 * d)
            if f'{p}_fwd_x' in a:
                m_, P_ = terminal(c, what, a, p, J)
                c.close(m_, m, f'{what}: terminal mean of the forward noising handed to {p}', atol=.08)
                c.close(P_, P, f'{what}: terminal covariance of the forward noising handed to {p}', atol=.2)
            if f'{p}_fwdy_x' in a:
                x, z = a[f'{p}_fwdy_x'], a[f'{p}_fwdy_z']
                c.close(z[:, 0], x, f'{what}: the noised observation starts from the observation', rtol=1e-5, atol=1e-5)
                B, *_ = np.linalg.lstsq(np.c_[np.ones(len(x)), x], z[:, 1], rcond=None)
                c.close(B, np.r_[np.zeros((1, d)), F * np.eye(d)], f'{what}: forward noising of the observation', atol=.08)
                c.close(np.cov((z[:, 1] - F * x).T).reshape(d, d), Q * np.eye(d), f'{what}: spread of the forward noising of the observation', atol=.08)
        if f'{p}_i_off' in a:
            vv, g = P[d:, d:], P[:d, d:] @ np.linalg.inv(P[d:, d:])
            scale = math.sqrt(np.abs(np.diag(P)).max())
            c.close(a[f'{p}_i_Av'], g, f'{what}: reference sampler handed to {p}: dependence on v', rtol=.02, atol=.01 if sde else .08 * scale)
            c.close(a[f'{p}_i_off'], m[:d] - g @ m[d:], f'{what}: reference sampler handed to {p}: mean', atol=.03 if sde else .15 * scale)
            c.close(a[f'{p}_i_cov'], P[:d, :d] - g @ vv @ g.T, f'{what}: reference sampler handed to {p}: covariance', atol=.05 if sde else .15 * scale ** 2)
        for k in range(K):
            A = np.block([[a[f'{q}_Au'][k], a[f'{q}_Av'][k]], [a[f'{p}_v_Au'][k], a[f'{p}_v_Av'][k]]]).astype(float)
            Z = np.zeros((2 * d, 2 * d))
            Z[:d, :d], Z[d:, d:] = a[f'{q}_cov'][k], a[f'{p}_v_cov'][k]
            m, P = A @ m + np.r_[a[f'{q}_off'][k], a[f'{p}_v_off'][k]], A @ P @ A.T + Z
        if os.environ.get('VERIF_TIMES'):
            print(what, p, 'terminal', np.abs(m).max(), np.abs(P - J).max(), flush=True)
        c.close(m, np.zeros(2 * d), f'{what}: mean at the end of the time-reversed model handed to {p}', atol=tol)
        c.close(P, J, f'{what}: covariance at the end of the time-reversed model handed to {p}', atol=tol)


def terminal(c, what, a, p, J):
    x, z = a[f'{p}_fwd_x'].astype(float), a[f'{p}_fwd_z'].astype(float)
    c.close(z[:, 0], x, f'{what}: the forward noising starts from (x_0, y_0)', rtol=1e-5, atol=1e-5)
    B, *_ = np.linalg.lstsq(np.c_[np.ones(len(x)), x], z[:, 1], rcond=None)
    R = np.cov((z[:, 1] - np.c_[np.ones(len(x)), x] @ B).T)
    return B[0], B[1:].T @ J @ B[1:] + R


def twisted_model(c, what, a, d, obs_var, sde):
    C, J, G, V = gp(d, obs_var)
    if 'tw_off' not in a:
        return
    c.case('recorded model', {'script': what, 'call': 'twisted_smc'})
    ts = a['tw_ts'].astype(float)
    K = len(ts) - 1
    dt = np.diff(ts)[::-1, None, None]
    c.ev('steps_audited', K)
    disp2 = ((.02 + (4. - .02) * (ts[-1] - ts[:-1])) if sde == 'lin' else np.ones(K))[:, None, None]
    want = disp2 * dt * np.eye(d)
    lognorm = -.5 * np.linalg.slogdet(2 * np.pi * want)[1]
    F, Q = noise(sde)
    c.close(a['tw_cov'] / dt, want / dt, f'{what}: variance of the transition', rtol=2e-3, atol=2e-3)
    c.close(a['tw_p_cov'] / dt, want / dt, f'{what}: variance of the proposal density', rtol=2e-3, atol=2e-3)
    c.close(a['tw_norm'], lognorm, f'{what}: normalisation of the transition density', rtol=2e-3, atol=2e-2)
    c.close(a['tw_p_norm'], lognorm, f'{what}: normalisation of the proposal density', rtol=2e-3, atol=2e-2)
    c.close((a['tw_ps_mean'] - a['tw_p_mean']) / np.sqrt(want[:, 0, :1]), np.zeros((K, d)), f'{what}: mean of the proposal sampler is that of its density', atol=.12)
    c.close(a['tw_ps_cov'] / want[:, :1, :1], np.broadcast_to(np.eye(d), (K, d, d)), f'{what}: spread of the proposal sampler', atol=.16)
    c.close(a['tw_i_off'], np.zeros(d), f'{what}: mean of the initial sampler', atol=.03)
    c.close(a['tw_i_cov'], F ** 2 * C + Q * np.eye(d), f'{what}: covariance of the initial sampler', atol=.05)
    m, P = np.zeros(d), F ** 2 * C + Q * np.eye(d)
    for k in range(K):
        A = a['tw_A'][k].astype(float)
        m, P = A @ m + a['tw_off'][k], A @ P @ A.T + a['tw_cov'][k]
    c.close(m, np.zeros(d), f'{what}: mean at the end of the time-reversed model', atol=.02)
    c.close(P, C, f'{what}: covariance at the end of the time-reversed model', atol=.03)
    c.close(a['tw_H'], -np.eye(d) / obs_var, f'{what}: the final twisting is the likelihood of the observation (curvature)', atol=.05)
    c.close(np.linalg.solve(-a['tw_H'].astype(float), a['tw_g']), a['tw_y'], f'{what}: the final twisting is the likelihood of the observation (location)', atol=.05)


def conditional_score(c, what, saved, a, d, obs_var, sde):
    """What the baseline integrates: the reversal of the noising of the exact posterior."""
    if 'em_drift' not in a:
        return
    c.case('recorded model', {'script': what, 'call': 'euler_maruyama'})
    V, m = gp(d, obs_var)[3], np.asarray(saved['gp_mean'], float)
    ts = a['em_ts'].astype(float)
    c.ev('steps_audited', len(ts) - 1)
    T = ts[-1]
    us = np.concatenate([np.zeros((1, d)), np.eye(d), np.full((1, d), 2.)])
    beta = lambda t: (.02 + (4. - .02) * t) if sde == 'lin' else 1.
    want = []
    for t in ts[:-1]:
        s = T - t
        F = math.exp(-.5 * (.02 * s + (4. - .02) * s ** 2 / 2)) if sde == 'lin' else math.exp(-.5 * s)
        S = F ** 2 * V + (1 - F ** 2) * np.eye(d)
        want.append([.5 * beta(s) * u - beta(s) * np.linalg.solve(S, u - F * m) for u in us])
    c.close(a['em_drift'], want, f'{what}: the drift is that of the reversal of the noised posterior', rtol=2e-3, atol=2e-3)
    c.close(np.broadcast_to(a['em_dispersion'].reshape(len(ts) - 1, -1), (len(ts) - 1, 1)), np.sqrt([[beta(T - t)] for t in ts[:-1]]), f'{what}: the dispersion', rtol=1e-4, atol=1e-5)
    F, Q = noise(sde)
    x, n = a['em_starts'].astype(float), len(a['em_starts'])
    z = np.linalg.solve(np.linalg.cholesky(F ** 2 * V + Q * np.eye(d)), (x - F * m).T).T
    c.close(z.mean(0) * math.sqrt(n), np.zeros(d), f'{what}: mean of the initial states', atol=6.)
    c.close((z.T @ z / n - np.eye(d)) * math.sqrt(n / 2), np.zeros((d, d)), f'{what}: covariance of the initial states', atol=6.)


def experiment(script, args, folder, d, obs_var, sde, burn, tol, moments=True, mtol=.03):
    """quick and thorough arguments differ in the number of samples only"""
    def section(c):
        a = [str(x) for x in (args[1] if c.thorough else args[0])]
        a += ['--d', str(d), '--id', str(int(c.rng.integers(1, 10_000)))]
        if sde is not None:
            a += ['--sde', sde]
        what = ' '.join([script, *a])
        r = run_script(c, script, a, folder)
        c.case('experiment', {'script': script, 'args': a})
        if r is None:
            return
        saved, audit = r
        posterior(c, what, saved, audit, d, obs_var, burn, tol, moments)
        model(c, what, audit, d, obs_var, sde, mtol)
        if 'csgm' in script:
            conditional_score(c, what, saved, audit, d, obs_var, sde)
        if 'twisted' in script:
            twisted_model(c, what, audit, d, obs_var, sde)
    section.__name__ = script.split('/')[0] + '_' + script.split('/')[1][:-3] + f'_{sde}_{d}' + ''.join(x for x in map(str, args[0]) if x[:2] == '--' and x[2:] in ('marg', 'explicit_backward', 'explicit_final'))
    return section


def table(c):
    """The table of the paper: every figure printed against the saved files, by definition."""
    import re
    import scipy.linalg
    methods = ['filter-const-100', 'gibbs-eb-const-100', 'pmcmc-0.005-const-100', 'pmcmc-0.001-const-100', 'twisted-const-100', 'csgm-const']
    rng, want, d = c.rng, {}, 3
    with tempfile.TemporaryDirectory(prefix='verif-exp-') as tmp:
        os.makedirs(os.path.join(tmp, 'toy', 'results'))
        for m in methods:
            st = []
            for i in range(100):
                L = np.tril(rng.normal(size=(d, d)) * .4, -1) + np.diag(rng.uniform(.5, 1.5, d))
                V0, m0 = L @ L.T, rng.normal(size=d)
                chains = 3 if m.split('-')[0] in ('gibbs', 'pmcmc') else 1
                x = m0 + .3 * rng.normal(size=(chains, 1, d)) + rng.normal(size=(chains, 60, d)) @ L.T * rng.uniform(.7, 1.4, (chains, 1, 1))
                np.savez(os.path.join(tmp, 'toy', 'results', f'{m}-{i}.npz'), samples=x if chains > 1 else x[0], gp_mean=m0, gp_cov=V0)
                r = []
                for z in x:
                    m1, V1 = z.mean(0), np.cov(z.T)
                    root = scipy.linalg.sqrtm(V0)
                    r.append([.5 * (np.trace(np.linalg.solve(V1, V0)) - d + (m1 - m0) @ np.linalg.solve(V1, m1 - m0) + np.linalg.slogdet(V1)[1] - np.linalg.slogdet(V0)[1]),
                              ((m0 - m1) ** 2).sum() + np.trace(V0 + V1 - 2 * scipy.linalg.sqrtm(root @ V1 @ root).real),
                              np.abs(m1 - m0).mean(), np.abs(np.diag(V1) - np.diag(V0)).mean()])
                st.append(np.mean(r, 0))
            want[m] = np.mean(st, 0), np.std(st, 0)
        env = {k: v for k, v in os.environ.items() if not k.startswith('VERIF_')}
        env.update(PYTHONPATH=REPO, PYTHONDONTWRITEBYTECODE='1', JAX_PLATFORMS='cpu', MPLBACKEND='Agg')
        p = subprocess.run([sys.executable, '-W', 'ignore', os.path.join(REPO, 'experiments', 'tabulators', 'tabulate_toy.py')], cwd=tmp, env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    c.case('table', {'methods': methods})
    c.ev('scripts_run')
    if not c.expect(p.returncode == 0, 'tabulate_toy.py fails', output=p.stdout[-3000:]):
        return
    for m in methods:
        line = [l for l in p.stdout.splitlines() if l.startswith(f'Method {m} |')]
        if c.expect(len(line) == 1, f'the table has a line for {m}', output=p.stdout[-1000:]):
            num = [float(v) for v in re.findall(r'-?\d+\.\d{4}', line[0])]
            c.expect(len(num) == 8, f'{m}: eight figures', line=line[0])
            for i, n in enumerate(('KL', 'Bures', 'Mean', 'Var')):
                c.close(num[2 * i:2 * i + 2], [want[m][0][i], want[m][1][i]], f'{m}: {n} (mean and deviation over the runs)', rtol=2e-3, atol=2e-4)
            c.ev('table_lines')


E = [
    table,
    experiment('toy/gp_csgm.py', [['--nsamples', 6000], ['--nsamples', 60000]], 'toy', 3, 1., 'const', 0, (.02, .02)),
    experiment('toy/gp_csgm.py', [['--nsamples', 6000], ['--nsamples', 60000]], 'toy', 2, 1., 'lin', 0, (.02, .02)),
    experiment('toy/gp_filter.py', [['--nsamples', 400, '--nparticles', 100], ['--nsamples', 4000, '--nparticles', 100]], 'toy', 2, 1., 'const', 0, (.25, .12)),
    experiment('toy/gp_twisted.py', [['--nsamples', 1000, '--nparticles', 100], ['--nsamples', 10000, '--nparticles', 100]], 'toy', 2, 1., 'const', 0, (.03, .04)),
    experiment('toy/gp_gibbs.py', [['--nsamples', 40, '--nchains', 200, '--explicit_backward'], ['--nsamples', 100, '--nchains', 1000, '--explicit_backward']], 'toy', 2, 1., 'const', .3, (.03, .03)),
    experiment('toy/gp_gibbs.py', [['--nsamples', 40, '--nchains', 200, '--nparticles', 12], ['--nsamples', 100, '--nchains', 1000]], 'toy', 2, 1., 'lin', .3, (.03, .03)),
    experiment('toy/gp_pmcmc.py', [['--nsamples', 60, '--nchains', 100, '--nparticles', 30, '--delta', .5], ['--nsamples', 200, '--nchains', 600, '--nparticles', 60, '--delta', .5]], 'toy', 1, 1., 'const', .5, (.05, .05)),
    experiment('sb/gibbs.py', [['--nsamples', 1000, '--explicit_backward'], ['--nsamples', 20000, '--explicit_backward']], 'sb', 2, .1, None, .3, (.1, .1), mtol=.1),
    experiment('sb/filter.py', [['--nsamples', 300, '--nparticles', 100], ['--nsamples', 3000, '--nparticles', 100]], 'sb', 2, .1, None, 0, (.2, .2), mtol=.1),
]

run_sections(
    Check('C26', 'Every synthetic experiment script x noising process x sampler options, run as a user runs it; non-trivial = distinct (script, arguments) '
          'and distinct recorded models', ['scripts are judged by what they save and by what they hand to the library']),
    E, scripts_run=len(E), samples_judged=1000)
