"""C27: the image experiments end to end: every script is run as a user runs it, in a scratch directory with a synthetic data set and a stand-in
network whose output is known (lib/imgs_driver.py). Oracles: the data set file and the seed for what is observed and saved; the closed form of the
stand-in for the model that the script hands to the library; the recorded calls for the histories of the chains and of the training."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib.core import *
import glob
from concurrent.futures import ThreadPoolExecutor
import pickle
import subprocess
import tempfile

DRIVER = os.path.join(VERIF, 'lib', 'imgs_driver.py')
NORM = lambda x, m, s: -.5 * ((x - m) / s) ** 2 - np.log(s) - .5 * math.log(2 * math.pi)


def write_data(tmp, dataset, seed):
    """-> images by the file they are read from"""
    rng = np.random.default_rng(seed)
    os.makedirs(os.path.join(tmp, 'datasets'))
    if dataset == 'mnist':
        im = rng.uniform(0, 1, (10000, 28, 28)).astype(np.float32)
        im[:, 0, 0] = np.arange(10000) / 10000   # a tag
        np.savez(os.path.join(tmp, 'datasets', 'mnist.npz'), X=im[:10], X_test=im)
        return im[..., None]
    r = int(dataset.split('-')[1])
    n = r * r * 3
    i = np.arange(n)
    L = np.linalg.cholesky(.5 * np.eye(n) + .5 * np.exp(-np.abs(i[:, None] - i) / 3))
    im = (.5 + rng.normal(size=(30000, n)) @ L.T).astype(np.float32).reshape(30000, r, r, 3)
    im[:, 0, 0, 0] = np.arange(30000) / 30000
    os.makedirs(os.path.join(tmp, 'exp', 'datasets'))
    np.save(os.path.join(tmp, 'exp', 'datasets', f'celeba_hq{r}.npy'), im)
    return im


def run_script(c, script, args, dataset, seed, params=None):
    what = ' '.join([script, *args])
    with tempfile.TemporaryDirectory(prefix='verif-img-') as tmp:
        cwd = os.path.join(tmp, 'exp')
        for f in ('imgs/results_supr/arrs', 'imgs/results_supr/imgs', 'imgs/results_inpainting/arrs', 'imgs/results_inpainting/imgs',
                  'sb_imgs/results', 'checkpoints', 'tmp_figs', 'figs'):
            os.makedirs(os.path.join(cwd, f))
        data = write_data(tmp, dataset, seed)
        for f, v in (params or {}).items():
            np.savez(os.path.join(cwd, 'checkpoints', f), **v)
        out = os.path.join(tmp, 'audit.pkl')
        env = {k: v for k, v in os.environ.items() if not k.startswith('VERIF_')}
        env.update(PYTHONPATH=REPO, PYTHONDONTWRITEBYTECODE='1', JAX_PLATFORMS='cpu', MPLBACKEND='Agg')
        p = subprocess.run([sys.executable, '-W', 'ignore', DRIVER, out, os.path.join(REPO, 'experiments', script), *args],
                           cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        c.ev('scripts_run')
        if p.returncode:
            tail = p.stdout[-3000:]
            if 'SCRIPT-DONE' not in p.stdout:
                c.fail(f'{what}: the experiment fails', output=tail)
                return None
            print(tail, flush=True)
            raise RuntimeError('the audit of the script failed')
        with open(out, 'rb') as f:
            audit = pickle.load(f)
        files = {}
        for f in glob.glob(os.path.join(cwd, 'imgs', 'results_*', 'arrs', '*.np[yz]')) + glob.glob(os.path.join(cwd, 'sb_imgs', 'results', '*.np[yz]')) \
                + glob.glob(os.path.join(cwd, 'checkpoints', '*.npz')):
            v = np.load(f)
            files[os.path.relpath(f, cwd)] = {k: v[k] for k in v} if f.endswith('.npz') else v
    return data, files, audit


# ------------------------------------------------------------------------------------------------ the exact model
class Model:
    def __init__(self, sde, T, mean, sb=False, mean_fwd=None):
        self.sde, self.T, self.sb, self.m, self.mf = sde, T, sb, mean.astype(float), mean_fwd
        n = mean.size
        i = np.arange(n)
        self.S = np.eye(n) if n > 200 else .5 * np.eye(n) + .5 * np.exp(-np.abs(i[:, None] - i) / 3)
        self.eig = None if n > 200 else np.linalg.eigh(self.S)

    def beta(self, t):
        return .02 + (5. - .02) * t / self.T if self.sde == 'lin' else 1.

    def F(self, t, s=0.):
        return np.exp(-.5 * (.02 * (t - s) + (5. - .02) / self.T * (t ** 2 - s ** 2) / 2)) if self.sde == 'lin' else np.exp(-.5 * (t - s))

    def net(self, x, t, m=None):
        m = self.m if m is None else m
        if self.sb:
            return -.5 * (x - m) * (1 + .3 * t)
        F = self.F(t)
        z = (x - F * m).reshape(*x.shape[:-3], -1)
        z = z if self.eig is None else ((z @ self.eig[1]) / (F ** 2 * self.eig[0] + 1 - F ** 2)) @ self.eig[1].T
        return -z.reshape(x.shape)

    def reverse_drift(self, x, t):
        """at time t of the reversal"""
        s = self.T - t
        return self.net(x, s) if self.sb else .5 * self.beta(s) * x + self.beta(s) * self.net(x, s)


class Split:
    """the observed and the unobserved pixels, from the mask as it is saved"""
    def __init__(self, mask, shape):
        self.un, self.ob = [np.asarray(v) for v in (mask.unobs_inds_ravelled, mask.obs_inds_ravelled)]
        self.shape = shape

    def apart(self, xy):
        z = np.asarray(xy).reshape(*np.shape(xy)[:-3], -1, self.shape[-1])
        return z[..., self.un, :], z[..., self.ob, :]

    def join(self, u, v):
        z = np.zeros((*u.shape[:-2], self.shape[0] * self.shape[1], self.shape[2]))
        z[..., self.un, :], z[..., self.ob, :] = u, v
        return z.reshape(*u.shape[:-2], *self.shape)


def white(c, z, what):
    """z must be iid standard normal"""
    z = np.asarray(z, float).reshape(len(z), -1)
    n = z.size
    c.ev('residuals', n)
    c.expect(np.abs(z).max() < 7., f'{what}: an innovation is far too large', largest=np.abs(z).max())
    c.expect(abs(z.mean()) < 6 / math.sqrt(n), f'{what}: mean of the innovations', mean=z.mean(), n=n)
    c.expect(abs((z ** 2).mean() - 1) < 6 * math.sqrt(2 / n), f'{what}: variance of the innovations', var=(z ** 2).mean(), n=n)
    if len(z) > 10 and z.shape[1] > 1:
        corr = (z[:, 1:] * z[:, :-1]).mean()
        c.expect(abs(corr) < 6 / math.sqrt(z[:, 1:].size), f'{what}: innovations of neighbouring pixels are correlated', corr=corr)
        corr = (z[1:] * z[:-1]).mean()
        c.expect(abs(corr) < 6 / math.sqrt(z[1:].size), f'{what}: innovations of neighbouring particles are correlated', corr=corr)


def model(c, what, audit, M, shape):
    for name, p in audit['probes'].items():
        if name == 'twisted_smc':
            continue
        c.case('recorded model', {'script': what, 'call': name})
        ts = p['ts'].astype(float)
        dt = M.T / (len(ts) - 1)
        c.close(ts, np.linspace(0, M.T, len(ts)), f'{what}: times handed to {name}', atol=1e-5)
        (mask,) = p['extra'].values()
        sp = Split(mask, shape)
        for q in p['steps']:
            t = ts[q['k']]
            sd = math.sqrt(dt * M.beta(M.T - t))
            drift = M.reverse_drift(sp.join(q['u'], np.broadcast_to(q['v'], (len(q['u']), *q['v'].shape))), t)
            du, dv = sp.apart(drift)
            mu, mv = q['u'] + du * dt, q['v'] + dv * dt
            c.ev('steps_audited')
            if 'sampled' in q:
                white(c, (q['sampled'] - mu) / sd, f'{what}: transition sampler handed to {name} at time {t:.3g}')
            scale = max(1., .5 * q['u2'].size)
            if 'logpdf' in q:
                w = NORM(q['u2'], mu, sd).sum((1, 2))
                c.close(q['logpdf'] / np.abs(w), w / np.abs(w), f'{what}: transition density handed to {name}', rtol=1e-3, atol=1e-4, t=t)
            w = NORM(q['v2'], mv, sd).sum((1, 2))
            c.close(q['likelihood'] / np.abs(w), w / np.abs(w), f'{what}: measurement density handed to {name}', rtol=1e-3, atol=1e-4, t=t)
        if 'forward' in p:
            f = p['forward']
            x = f['path'].astype(float)
            c.close(x[:, 0], sp.join(f['x'], f['y']), f'{what}: the forward noising starts from the restored image', rtol=1e-5, atol=1e-5)
            c.expect(x.shape[1:] == (len(ts), *shape), f'{what}: shape of the forward noising', got=x.shape)
            forward(c, f'{what}: forward noising handed to {name}', M, x, ts, dt)
            for g, w, n in zip(p['unpacked'], sp.apart(x[0]), ('unobserved', 'observed')):
                c.close(g, w, f'{what}: {n} part of the noised image', rtol=1e-6, atol=1e-6)
        if 'forward_y' in p:
            y = p['forward_y']['path'].astype(float)
            c.close(y[:, 0], p['forward_y']['y'], f'{what}: the noised observation starts from the observation', rtol=1e-5, atol=1e-5)
            forward(c, f'{what}: noising of the observation handed to {name}', M, y, ts, dt)
        if 'reference' in p:
            white(c, p['reference'], f'{what}: reference sampler handed to {name}')


def forward(c, what, M, x, ts, dt):
    if M.sb:
        f = M.net
        z = np.stack([(x[:, k + 1] - x[:, k] - f(x[:, k], ts[k], M.mf) * dt) / math.sqrt(dt * M.beta(ts[k])) for k in range(len(ts) - 1)], 1)
    else:
        z = np.stack([(x[:, k + 1] - M.F(ts[k + 1], ts[k]) * x[:, k]) / math.sqrt(1 - M.F(ts[k + 1], ts[k]) ** 2) for k in range(len(ts) - 1)], 1)
    white(c, z.reshape(len(z), -1), what)
    white(c, z[:, :2].reshape(len(z), -1), f'{what}, first steps')
    white(c, z[:, -2:].reshape(len(z), -1), f'{what}, last steps')


def twisted(c, what, audit, M, shape):
    p = audit['probes'].get('twisted_smc')
    if p is None:
        return
    c.case('recorded model', {'script': what, 'call': 'twisted_smc'})
    ts = p['ts'].astype(float)
    dt = M.T / (len(ts) - 1)
    c.close(ts, np.linspace(0, M.T, len(ts)), f'{what}: times handed to twisted_smc', atol=1e-5)
    white(c, p['initial'].reshape(len(p['initial']), -1), f'{what}: initial particles')
    (mask,) = p['extra'].values()
    sp = Split(mask, shape)
    for q in p['steps']:
        t = ts[q['k']]
        sd = math.sqrt(dt * M.beta(M.T - t))
        u, u2 = q['u'].astype(float), q['u2'].astype(float)
        w = NORM(u2, u + M.reverse_drift(u, t) * dt, sd).sum((1, 2, 3))
        c.ev('steps_audited')
        c.close(q['logpdf'] / np.abs(w), w / np.abs(w), f'{what}: transition density handed to twisted_smc', rtol=1e-3, atol=1e-4, t=t)
        # the proposal density is a Gaussian of the same spread around a mean that is read off the density itself: all u are the same
        k = min(len(u2), 400)
        A = np.concatenate([np.ones((k, 1)), u2[:k].reshape(k, -1)], 1)
        rhs = q['prop_logpdf'][:k] + .5 * ((u2[:k] / sd) ** 2).sum((1, 2, 3))
        if k > A.shape[1] + 5:
            B, *_ = np.linalg.lstsq(A, rhs, rcond=None)
            m = B[1:] * sd ** 2
            c.close((A @ B - rhs) / np.abs(rhs).max(), np.zeros(k), f'{what}: the proposal density has the spread of the proposal', atol=2e-3, t=t)
            c.close(B[0] / B.size, (NORM(0., m, sd).sum()) / B.size, f'{what}: normalisation of the proposal density', rtol=2e-2, atol=2e-2, t=t)
            z = (q['sampled'].reshape(len(q['sampled']), -1) - m) / sd
            c.expect(abs((z ** 2).mean() - 1) < 6 * math.sqrt(2 / z.size) + .02, f'{what}: spread of the proposal sampler', var=(z ** 2).mean(), t=t)
            c.expect(np.abs(z.mean(0)).max() < 6 / math.sqrt(len(z)) + .05, f'{what}: mean of the proposal sampler is that of its density', mean=z.mean(0), t=t)
    q = p['final']
    o = sp.apart(q['u2'] + M.reverse_drift(q['u2'].astype(float), M.T) * dt)[1]
    w = NORM(q['y'], o, math.sqrt(.06)).sum((1, 2))
    c.close(q['twist'], w, f'{what}: the final twisting is the density of the observed pixels', rtol=2e-2, atol=.5)


def asked(c, what, audit, M, img, ob, un, nsteps):
    """the baseline shows the network the observation noised to the time of the state"""
    if len(audit['asked']) < 200:
        return
    x, t = np.stack([np.asarray(a[0], float).reshape(-1) for a in audit['asked']]), np.array([a[1] for a in audit['asked']])
    if x.shape[1] != img.size:
        return
    c.ev('network_inputs', len(x))
    ch = img.shape[-1]
    ob = (np.asarray(ob)[:, None] * ch + np.arange(ch)).ravel()
    c.expect(np.abs(t[:, None] - np.linspace(0, M.T, nsteps + 1)).min(1).max() < 1e-4, f'{what}: the network is asked at times of the grid')
    F = M.F(t)[:, None]
    z = (x[:, ob] - F * img.ravel().astype(float)[ob]) / np.sqrt(np.maximum(1 - F ** 2, 1e-12))
    for name, k in (('', t >= 0), (', first half', t > M.T / 2), (', second half', t <= M.T / 2), (', near the end', (t > 0) & (t < M.T / 8))):
        white(c, z[k & (t > 0)], f'{what}: the observation that the network sees is noised to the time of the state{name}')


# ------------------------------------------------------------------------------------------------ what is saved
def row_of(data, img):
    i = int(round(float(img.ravel()[0]) * len(data)))
    return i if 0 <= i < len(data) and np.array_equal(data[i], img) else None


def saved(c, what, files, audit, data, head, k, nsamples, method, csgm, exact):
    """-> (true image, mask as saved, restored)"""
    tname, rname = f'{head}{k}-true.npz', f'{head}{k}-{method}.npy'
    if not c.expect(tname in files and rname in files, f'{what}: the files that the tables are made from', missing=[n for n in (tname, rname) if n not in files], saved=sorted(files)):
        return None
    true, rest = files[tname], files[rname]
    img = true['test_img']
    c.expect(row_of(data, img) is not None, f'{what}: the saved true image is an image of the test file')
    c.expect(rest.shape == (nsamples, *img.shape) and np.all(np.isfinite(rest)), f'{what}: shape of the restored images', got=rest.shape)
    arrs = [true[a] for a in sorted(n for n in true if n.startswith('arr_'))]
    ob, un = arrs[-1], arrs[-2]
    c.expect(np.array_equal(np.sort(np.r_[ob, un]), np.arange(img.shape[0] * img.shape[1])), f'{what}: the saved mask splits the pixels')
    flat = lambda z: z.reshape(*z.shape[:-3], -1, z.shape[-1])
    if exact:
        c.expect(np.array_equal(flat(rest)[:, ob], np.broadcast_to(flat(img)[ob], flat(rest)[:, ob].shape).astype(rest.dtype)),
                 f'{what}: a restored image changes an observed pixel')
    if nsamples >= 4 and 'pmcmc' not in method:
        c.expect(len(np.unique(rest.round(5), axis=0)) > (1 if exact == 'chain' else .9 * nsamples), f'{what}: the samples are different images')
    ims = audit['images']
    base = os.path.basename(f'{head}{k}')
    clip = lambda z: np.clip(z, 0, 1)[..., 0] if z.shape[-1] == 1 else np.clip(z, 0, 1)
    c.close(ims.get(f'{base}-true.png', np.nan), clip(img), f'{what}: picture of the true image', atol=1e-6)
    blank = img.copy().reshape(-1, img.shape[-1])
    blank[un] = 0.
    c.close(ims.get(f'{base}-corrupt.png', np.nan), clip(blank.reshape(img.shape)), f'{what}: picture of the corrupted image', atol=1e-6)
    for i in (0, nsamples - 1):
        c.close(ims.get(f'{base}-{method}-{i}.png', np.nan), clip(rest[i]), f'{what}: picture of restored image {i}', atol=1e-6)
    c.ev('images_saved', nsamples)
    return img, ob, un, rest


def histories(c, what, audit, runs, nsamples, true, shape):
    """Every step of a chain starts where the previous one ended, with a new key, the same observation and the same mask."""
    ev = audit['events']
    keys = [tuple(np.ravel(e['in']['key'])) for v in ev.values() for e in v]
    c.expect(len(set(keys)) == len(keys), f'{what}: a key is used for two calls', calls=len(keys))
    for name, links in (('gibbs_kernel', {'x0': 0, 'us_star': 1, 'bs_star': 2}), ('pmcmc_kernel', {'uT': 0, 'log_ell': 1, 'ys': 2})):
        e = ev.get(name, [])
        for r in range(len(e) // nsamples if nsamples else 0):
            w = e[r * nsamples:(r + 1) * nsamples]
            for a, b in zip(w[:-1], w[1:]):
                for k, i in links.items():
                    if not np.array_equal(np.asarray(a['out'][i]), b['in'][k], equal_nan=True):
                        c.fail(f'{what}: {k} of a call of {name} is not that of the previous iteration')
                        return
            c.ev('chain_links', len(w) - 1)
            if name == 'pmcmc_kernel':
                c.expect(bool(w[0]['out'][3].is_accepted), f'{what}: the chain leaves its arbitrary start with the first proposal', start=w[0]['in']['log_ell'])
            if name == 'gibbs_kernel' and 'gibbs_init' in ev:
                g = ev['gibbs_init'][r]
                c.expect(np.array_equal(g['out'][0], w[0]['in']['x0']) and np.array_equal(g['out'][1], w[0]['in']['us_star']), f'{what}: the chain starts from the initialisation')
    main = next((n for n in ('gibbs_kernel', 'pmcmc_kernel', 'twisted_smc', 'gibbs_init') if n in ev), None)
    if main is None:
        return
    e = ev[main]
    if not c.expect(len(e) == runs * nsamples, f'{what}: number of calls of {main}', calls=len(e), want=runs * nsamples):
        return
    for r in range(runs):
        img, ob, un, rest = true[r]
        for i in range(nsamples):
            z = e[r * nsamples + i]
            y = z['in'].get('y0', z['in'].get('y'))
            if not np.array_equal(y, img.reshape(-1, shape[-1])[ob]):
                c.fail(f'{what}: {main} is given something else than the observed pixels')
                return
            (m,) = z['extra'].values()
            if not (np.array_equal(m.obs_inds_ravelled, ob) and np.array_equal(m.unobs_inds_ravelled, un)):
                c.fail(f'{what}: {main} is given another mask than the one that is saved')
                return
            if main != 'twisted_smc':
                x = np.asarray(z['out'][0])
                if not np.allclose(rest[i].reshape(-1, shape[-1])[un], x, atol=1e-6):
                    c.fail(f'{what}: the saved image is not what {main} returned')
                    return
        c.ev('calls_matched', nsamples)


def exact_posterior(M, img, ob, un, obs_var=0.):
    """of the unobserved pixels (all channels)"""
    ch = img.shape[-1]
    pix = lambda p: (p[:, None] * ch + np.arange(ch)).ravel()
    a, b = pix(un), pix(ob)
    G = M.S[np.ix_(a, b)] @ np.linalg.inv(M.S[np.ix_(b, b)] + obs_var * np.eye(len(b)))
    return M.m.ravel()[a] + G @ (img.ravel()[b] - M.m.ravel()[b]), M.S[np.ix_(a, a)] - G @ M.S[np.ix_(b, a)]


def replacement_law(M, img, ob, un, K):
    """law of the unobserved pixels when the observed ones are replaced, at every step, by a fresh noising of the observation"""
    ch = img.shape[-1]
    pix = lambda p: (p[:, None] * ch + np.arange(ch)).ravel()
    a, b = pix(un), pix(ob)
    n, dt = M.S.shape[0], M.T / K
    m, P = np.zeros(len(a)), np.eye(len(a))
    y, mm = img.ravel()[b], M.m.ravel()
    for k in range(K):
        t = M.T - k * dt
        F, be = M.F(t), M.beta(t)
        prec = np.linalg.inv(F ** 2 * M.S + (1 - F ** 2) * np.eye(n))
        A = np.eye(len(a)) * (1 + .5 * be * dt) - be * dt * prec[np.ix_(a, a)]
        B = -be * dt * prec[np.ix_(a, b)]
        m = A @ m + B @ (F * y) + be * dt * (prec @ (F * mm))[a]
        P = A @ P @ A.T + (1 - F ** 2) * B @ B.T + be * dt * np.eye(len(a))
    return m, P


def moments(c, what, z, m, P, tol, segments):
    z = np.asarray(z, float).reshape(len(z), -1)
    e = z - m
    st = np.concatenate([e, (e[:, :, None] * e[:, None]).reshape(len(e), -1) - P.ravel()], 1)
    st = np.stack([s.mean(0) for s in np.array_split(st, segments)])
    dev, se = st.mean(0), st.std(0, ddof=1) / math.sqrt(segments)
    d = len(m)
    ex = (np.abs(dev) - np.r_[np.full(d, tol[0]), np.full(d * d, tol[1])]) / np.maximum(se, 1e-9)
    i = int(np.argmax(ex))
    if os.environ.get('VERIF_TIMES'):
        print(what, 'mean', np.abs(dev[:d]).max().round(3), se[:d].max().round(3), 'cov', np.abs(dev[d:]).max().round(3), se[d:].max().round(3), flush=True)
    c.ev('samples_judged', len(z))
    c.expect(ex[i] < 7., f'{what}: the {"mean" if i < d else "covariance"} of the restored pixels', component=i, deviation=dev[i], standard_error=se[i], tolerance=tol)


STATIC = {'gibbs': (False, False), 'gibbs-eb': (True, False), 'gibbs-eb-ef': (True, True)}


def restoration(script, dataset, size, method, sde, nsteps, nsamples, ny0s, ema, extra=(), nparticles=10, tol=None, start=0):
    """method None: csgm or twisted"""
    def section(c):
        rng = c.rng
        ns = nsamples * (10 if c.thorough else 1)
        shape = (28, 28, 1) if dataset == 'mnist' else (int(dataset[7:]),) * 2 + (3,)
        epoch, seed = int(rng.integers(1, 3000)), int(rng.integers(1, 10_000))
        a = ['--dataset', dataset, '--rect_size' if 'inpainting' in script else '--rate', size, '--sde', sde, '--test_nsteps', nsteps, '--test_epoch', epoch,
             '--test_seed', seed, '--ny0s', ny0s, '--nsamples', ns, '--start_from', start, *extra]
        a += (['--test_ema'] if ema else []) + (['--method', method] if method else []) + (['--nparticles', nparticles] if 'csgm' not in script else [])
        a = [str(x) for x in a]
        what = ' '.join([script, *a])
        par = {'param': rng.normal(size=shape).astype(np.float32), 'ema_param': (.5 + .3 * rng.normal(size=shape)).astype(np.float32)}
        M = Model(sde, 2., par['ema_param' if ema else 'param'])
        r = run_script(c, script, a, dataset, seed, {f'{dataset}_{sde}_{epoch}.npz': {k: v.ravel() for k, v in par.items()},
                                                     f'{dataset}_{sde}_{epoch - 1}.npz': {k: v.ravel() + 3 for k, v in par.items()}})
        c.case('experiment', {'script': script, 'args': a})
        if r is None:
            return
        data, files, audit = r
        for n in audit['networks']:
            c.expect(n['dim_in'] == shape, f'{what}: image shape of the network', **n)
        rm = '-rm' if '--rnd_mask' in extra else ''
        csgm = 'csgm' in script
        head = f'imgs/results_{"inpainting" if "inpainting" in script else "supr"}/arrs/{dataset}-{size}{rm}-{sde}-' + ('' if csgm else f'{nparticles}-')
        label = 'csgm' if csgm else 'twisted' if method is None else method
        if method and 'pmcmc' in method:
            label = f'pmcmc-{float(method.split("-")[1]) if "-" in method else None}'
        if '--marg' in extra and 'pmcmc' not in label:
            label += '-marg'
        true = []
        for k in range(start, ny0s):
            t = saved(c, what, files, audit, data, head, k, ns, label, csgm, False if 'twisted' in script else 'chain' if method and method != 'filter' else True)
            if t is None:
                return
            true.append(t)
        c.expect(len({row_of(data, t[0]) for t in true}) == len(true), f'{what}: different images are restored')
        c.expect(not any(os.path.basename(n).startswith(os.path.basename(f'{head}{k}-')) for n in files for k in range(start)), f'{what}: start_from skips images')
        # the images of this seed, from the file and the seed alone
        test_images(c, what, dataset, size, script, seed, data, true, start, rm)
        histories(c, what, audit, ny0s - start, ns, true, shape)
        model(c, what, audit, M, shape)
        twisted(c, what, audit, M, shape)
        if csgm and len(true) == 1:
            asked(c, what, audit, M, *true[0][:3], nsteps)
        for n, s in audit['static'].items():
            if n == 'gibbs_kernel':
                c.expect((s['explicit_backward'], s['explicit_final']) == STATIC[method], f'{what}: the requested variant of the Gibbs sampler', **s)
            if 'marg_y' in s:
                c.expect(s['marg_y'] == ('--marg' in extra), f'{what}: marginalisation as requested', **s)
            if n == 'pmcmc_kernel':
                c.expect(s['delta'] == (float(method.split('-')[1]) if '-' in method else None), f'{what}: the requested pMCMC step', **s)
            c.expect(s['nparticles'] == nparticles, f'{what}: number of particles', **s)
        if tol:
            for img, ob, un, rest in true:
                z = rest.reshape(ns, -1, shape[-1])[:, un]
                if csgm:
                    moments(c, what, z, *replacement_law(M, img, ob, un, nsteps), tol, 40)
                elif 'twisted' in script:
                    moments(c, what, z, *exact_posterior(M, img, ob, un, .06), tol, 40)
                else:
                    b = ns // 5
                    moments(c, what, z[b:], *exact_posterior(M, img, ob, un), tol, 16)
    section.__name__ = '_'.join([script.split('/')[1][:-3], dataset, str(method), sde])
    return section


def test_images(c, what, dataset, size, script, seed, data, true, start, rm):
    """which images are restored depends on the seed only, not on the method: all tables compare methods on the same images"""
    c.images = getattr(c, 'images', {})
    for k, (img, ob, un, _) in enumerate(true):
        key = (dataset, size, 'inpainting' in script, rm, seed, start + k)
        v = (row_of(data, img), tuple(ob))
        c.expect(c.images.setdefault(key, v) == v, f'{what}: the test images depend on the method', which=key)


# ------------------------------------------------------------------------------------------------ the same images for all methods, held-out images
def same_images(c):
    """Test image k of a seed and its mask are the same for all methods and whichever image a run starts from; no test image is a training image."""
    seed = int(c.rng.integers(1, 10_000))
    shape = (2, 2, 3)
    par = {k: c.rng.normal(size=12).astype(np.float32) for k in ('param', 'ema_param')}
    seen = {}
    runs = []
    for task, size, extra in (('inpainting', 1, []), ('supr', 2, ['--rnd_mask'])):
        for script, more, start in ((f'imgs/{task}.py', ['--method', 'filter', '--nparticles', '4'], 0), (f'imgs/{task}.py', ['--method', 'pmcmc-0.5', '--nparticles', '4'], 2),
                                    (f'imgs/{task}_csgm.py', [], 1), (f'imgs/{task}_twisted.py', ['--nparticles', '4'], 0)):
            runs.append((task, size, script, extra + more, start))
    jobs = []
    for task, size, script, more, start in runs:
        a = ['--dataset', 'celeba-2', '--rect_size' if task == 'inpainting' else '--rate', str(size), '--sde', 'const', '--test_nsteps', '6', '--test_epoch', '5',
             '--test_seed', str(seed), '--ny0s', '4', '--nsamples', '1', '--start_from', str(start), *more]
        jobs.append((task, script, start, a))
    with ThreadPoolExecutor(3) as pool:
        train = pool.submit(trained_on, c)
        done = list(pool.map(lambda j: run_script(c, j[1], j[3], 'celeba-2', 77, {'celeba-2_const_5.npz': par}), jobs))
    train = train.result()
    for (task, script, start, a), r in zip(jobs, done):
        what = ' '.join([script, *a])
        if r is None:
            return
        data, files, _ = r
        c.case('same images', {'script': script, 'args': a})
        for n, v in files.items():
            if n.endswith('-true.npz'):
                k = int(n.split('-')[-2])
                c.expect(start <= k < 4, f'{what}: images {start} to 3 are restored', got=k)
                arrs = [v[x] for x in sorted(x for x in v if x.startswith('arr_'))]
                i = row_of(data, v['test_img'])
                c.expect(i is not None, f'{what}: the saved true image is an image of the test file')
                c.expect(seen.setdefault((task, k), (i, tuple(arrs[-1]))) == (i, tuple(arrs[-1])), f'{what}: test image {k} or its mask depends on the method', image=k)
                c.expect(i not in train, f'{what}: test image {k} is one of those that the training script trains on', image=k, row=i)
                c.ev('test_images_compared')
    c.expect(len({v[0] for (t, _), v in seen.items() if t == 'inpainting'}) == 4, 'the test images are different images', seen={str(k): v[0] for k, v in seen.items()})


def trained_on(c):
    """rows of the file that the training script visits in an epoch"""
    a = ['--dataset', 'celeba-2', '--sde', 'const', '--nepochs', '1', '--batch_size', '2900', '--nsteps', '2', '--schedule', 'exp']
    r = run_script(c, 'imgs/train.py', a, 'celeba-2', 77)
    if r is None:
        return set()
    data, files, audit = r
    rows = {int(round(float(x) * 30000)) for e in audit['events']['step'] for x in e['xs']}
    c.expect(len(rows) == 29000, 'an epoch of the training script visits every training image', visited=len(rows))
    return rows


# ------------------------------------------------------------------------------------------------ training
def training(loss_type, sde, save_mem, schedule='cos', clip=False, learns=True):
    def section(c):
        bs, ne = 2900, 100
        a = ['--dataset', 'celeba-2', '--sde', sde, '--nepochs', ne, '--batch_size', bs, '--nsteps', '4' if save_mem else '2', '--lr', '2e-2', '--loss_type', loss_type,
             '--schedule', schedule]
        if save_mem:
            a[a.index('--nsteps') + 1] = bs
        a = [str(x) for x in a + (['--save_mem'] if save_mem else []) + (['--grad_clip'] if clip else [])]
        what = ' '.join(['imgs/train.py', *a])
        r = run_script(c, 'imgs/train.py', a, 'celeba-2', 77)
        c.case('training', {'args': a})
        if r is None:
            return
        data, files, audit = r
        st, em = audit['events']['step'], audit['events']['ema']
        per = 29000 // bs
        c.ev('training_steps', len(st))
        if not c.expect(len(st) == len(em) == ne * per, f'{what}: number of training steps', got=len(st)):
            return
        rows = [np.round(e['xs'].astype(float) * 30000).astype(int) for e in st]
        test = None
        for i in range(ne):
            e = np.concatenate(rows[i * per:(i + 1) * per])
            if not c.expect(len(np.unique(e)) == len(e) == 29000, f'{what}: epoch {i} visits every training image once', distinct=len(np.unique(e))):
                return
        c.expect(not np.array_equal(rows[0], rows[per]), f'{what}: epochs are shuffled differently')
        keys = [tuple(np.ravel(e['key'])) for e in st]
        c.expect(len(set(keys)) == len(keys), f'{what}: a key is used for two training steps')
        ema = st[0]['param']
        for n in range(len(st)):
            if n:
                c.expect(np.array_equal(st[n]['param'], st[n - 1]['out']), f'{what}: step {n} starts from the result of the previous one')
            c.expect(np.array_equal(em[n]['param'], st[n]['out']), f'{what}: the average at step {n} is taken of the new parameters')
            ema = st[n]['out'].astype(float) if n < 300 else .99 * ema + .01 * st[n]['out'] if n % 2 == 0 else ema
            if not c.expect(np.allclose(em[n]['out'], ema, atol=1e-5), f'{what}: moving average of the parameters after step {n} (start 300, every 2, decay 0.99)',
                            got=em[n]['out'], want=ema):
                return
            c.ev('averages_checked')
        name = f'checkpoints/celeba-2_{sde}_{ne - 1}.npz'
        if c.expect(name in files, f'{what}: checkpoint after {ne} epochs', saved=sorted(files)):
            c.close(files[name]['param'], st[-1]['out'], f'{what}: saved parameters', atol=1e-7)
            c.close(files[name]['ema_param'], em[-1]['out'], f'{what}: saved average of the parameters', atol=1e-7)
        if learns:
            used = np.unique(rows[0])
            m = data[np.unique(np.concatenate(rows[:per]))].reshape(29000, -1).mean(0)
            c.expect(np.abs(files[name]['ema_param'] - m).max() < .06, f'{what}: the trained parameters are the mean of the images', got=files[name]['ema_param'], want=m)
    section.__name__ = f'train_{loss_type}_{sde}_{save_mem}'
    return section


def bridge_training(vmapped, sde):
    def section(c):
        bs, ne, T, nsb, nst = 2900, 2, .5, 2, 5
        a = ['--dataset', 'celeba-2', '--sde', sde, '--nepochs', ne, '--batch_size', bs, '--nsteps', nst, '--nsbs', nsb, '--T', T, '--lr', '1e-2'] + (['--vmap_loss'] if vmapped else [])
        a = [str(x) for x in a]
        what = ' '.join(['sb_imgs/train.py', *a])
        r = run_script(c, 'sb_imgs/train.py', a, 'celeba-2', 77)
        c.case('training', {'args': a})
        if r is None:
            return
        data, files, audit = r
        ev, per = audit['events']['loss'], 29000 // bs
        c.ev('training_steps', len(ev))
        if not c.expect(len(ev) == nsb * 2 * ne * per, f'{what}: number of training steps', got=len(ev)):
            return
        c.expect(len({tuple(np.ravel(e['key'])) for e in ev}) == len(ev), f'{what}: a key is used for two training steps')
        beta = lambda t: .02 + (5. - .02) * t / T if sde == 'lin' else 1.
        prev = {}
        M = Model(sde, T, np.zeros((2, 2, 3)), sb=True)
        for s in range(nsb):
            for d, way in enumerate(('backward', 'forward')):
                seg = ev[(2 * s + d) * ne * per:(2 * s + d + 1) * ne * per]
                other = 1 - d
                for n, e in enumerate(seg):
                    L = audit['losses'][e['which']]
                    c.expect(L['learnt_is_model'] and L['name'] == ('ipf_loss_cont_v' if vmapped else 'ipf_loss_cont'), f'{what}: the requested loss', **{k: L[k] for k in ('name', 'learnt_is_model')})
                    c.expect(L['simulated_is_model'] == (s > 0 or d == 1), f'{what}: bridge iteration {s}, {way}: the process that is simulated')
                    if not L['simulated_is_model']:
                        c.close(L['drift'], -.5 * beta(.3) * L['x'], f'{what}: drift of the reference process', rtol=1e-5, atol=1e-6)
                    c.close(np.square(L['dispersion']), [beta(t) for t in (0., .1, .3)], f'{what}: dispersion of the reference process', rtol=1e-5)
                    t = np.asarray(e['ts'], float)
                    u = t if d == 0 else t[::-1]
                    c.expect(len(t) == nst + 1 and u[0] == 0. and abs(u[-1] - T) < 1e-6 and np.all(np.diff(u) >= 0), f'{what}: times of the {way} loss', ts=t)
                    if d == 0:
                        rows = np.round(e['xs'][:, 0, 0, 0].astype(float) * 30000).astype(int)
                        c.expect(np.array_equal(data[rows], e['xs']), f'{what}: the {way} loss is taken at training images')
                    else:
                        white(c, e['xs'].reshape(bs, -1), f'{what}: reference samples of the {way} loss')
                    if s or d:
                        c.expect(np.array_equal(e['simulated'], prev[other]), f'{what}: bridge iteration {s}, {way}: the simulated process keeps its latest parameters')
                    elif n == 0:
                        prev[other] = e['simulated']
                    if d in prev and n == 0 and not (s == 0 and d == 0):
                        pass
                    prev[d] = None
                    c.ev('losses_matched')
                ends = [e['learnt'] for e in seg]
                c.expect(all(not np.array_equal(x, y) for x, y in zip(ends[:-1], ends[1:])), f'{what}: bridge iteration {s}, {way}: every step moves the parameters')
                if d == 0:
                    for i in range(ne):
                        rows = np.concatenate([e['xs'][:, 0, 0, 0] for e in seg[i * per:(i + 1) * per]])
                        c.expect(len(np.unique(rows)) == 29000, f'{what}: an epoch visits every training image once')
                # the parameters after the last step are what the other direction simulates next, and what is saved
                name = f'checkpoints/sb_celeba-2_{sde}_{s}.npz'
                if not c.expect(name in files, f'{what}: checkpoint of bridge iteration {s}', saved=sorted(files)):
                    return
                prev[d] = files[name]['param_bwd' if d == 0 else 'param_fwd']
                step = np.abs(prev[d] - ends[-1]).max()
                c.expect(0 < step <= .011, f'{what}: the saved {way} parameters are those after the last step', distance=step)
    section.__name__ = f'sb_train_{vmapped}_{sde}'
    return section


def bridge_restoration(method, sde):
    def section(c):
        ns, step, seed, yid, K, N = 4, int(c.rng.integers(1, 9)), int(c.rng.integers(1, 9999)), int(c.rng.integers(0, 5)), 8, 5
        a = ['--rate', '4', '--sde', sde, '--method', method, '--test_nsteps', K, '--sb_step', step, '--test_seed', seed, '--y0_id', yid, '--nparticles', N, '--nsamples', ns]
        a = [str(x) for x in a]
        what = ' '.join(['sb_imgs/supr.py', *a])
        fw, bw = c.rng.normal(size=(2, 784)).astype(np.float32)
        r = run_script(c, 'sb_imgs/supr.py', a, 'mnist', seed, {f'sb_mnist_{sde}_{step}.npz': dict(param_fwd=fw, param_bwd=bw), f'sb_mnist_{sde}_{step - 1}.npz': dict(param_fwd=fw + 2, param_bwd=bw + 2)})
        c.case('experiment', {'script': 'sb_imgs/supr.py', 'args': a})
        if r is None:
            return
        data, files, audit = r
        shape = (28, 28, 1)
        M = Model(sde, .5, bw.reshape(shape), sb=True, mean_fwd=fw.reshape(shape).astype(float))
        model(c, what, audit, M, shape)
        head = f'sb_imgs/results/mnist-4-{sde}-{N}-{yid}'
        if not c.expect(f'{head}-true.npz' in files, f'{what}: the true image is saved', saved=sorted(files)):
            return
        true = files[f'{head}-true.npz']
        img = true['test_img']
        c.expect(row_of(data, img) is not None, f'{what}: the saved true image is an image of the test file')
        arrs = [true[x] for x in sorted(x for x in true if x.startswith('arr_'))]
        out = []
        for n in ('random', 'blank', 'interp'):
            f = f'{head}-{"gibbs-eb-ef" if method == "gibbs" else "filter"}-{n}.npy'
            if not c.expect(f in files, f'{what}: restored images', missing=f, saved=sorted(files)):
                return
            rest = files[f]
            c.expect(rest.shape == (ns, *shape) and np.all(np.isfinite(rest)), f'{what}: shape of the restored images', got=rest.shape)
            c.expect(np.array_equal(rest.reshape(ns, -1)[:, arrs[-1]], np.broadcast_to(img.ravel()[arrs[-1]], (ns, len(arrs[-1])))), f'{what}: a restored image changes an observed pixel')
            c.ev('images_saved', ns)
            out.append((img, arrs[-1], arrs[-2], rest))
        histories(c, what, audit, 3, ns, out, shape)
        starts = [e['in']['x0'] for e in audit['events']['gibbs_init']][::1 if method == 'gibbs' else ns]
        if c.expect(len(starts) == 3, f'{what}: three ways to start', got=len(starts)):
            c.expect(starts[0].min() >= 0 and starts[0].max() <= 1 and starts[0].std() > .2 and not starts[1].any(), f'{what}: random and blank starts')
            low = img.reshape(-1)[arrs[-1]].reshape(7, 7)
            c.expect(starts[2].min() >= low.min() - 1e-6 and starts[2].max() <= low.max() + 1e-6 and np.corrcoef(starts[2].ravel(), nearest(low)[arrs[-2]])[0, 1] > .5,
                     f'{what}: interpolated start')
    section.__name__ = f'sb_supr_{method}_{sde}'
    return section


def nearest(low):
    return np.repeat(np.repeat(low, 4, 0), 4, 1).ravel()


def coalescence(sde, ema):
    """The demonstration figure: particles of the filter and their spread."""
    def section(c):
        rng, n, size, nsteps = c.rng, 6, 2, 20
        shape, epoch, seed = (3, 3, 3), int(rng.integers(1, 3000)), int(rng.integers(1, 10_000))
        a = [str(z) for z in ['--dataset', 'celeba-3', '--rect_size', size, '--sde', sde, '--test_nsteps', nsteps, '--test_epoch', epoch, '--test_seed', seed,
                              '--nparticles', n, *(['--test_ema'] if ema else [])]]
        script = 'tabulators/plot_img_coalescence.py'
        what = ' '.join([script, *a])
        par = {'param': rng.normal(size=shape).astype(np.float32), 'ema_param': (.5 + .3 * rng.normal(size=shape)).astype(np.float32)}
        M = Model(sde, 2., par['ema_param' if ema else 'param'])
        c.case('experiment', {'script': script, 'args': a})
        r = run_script(c, script, a, 'celeba-3', seed, {f'celeba-3_{sde}_{epoch}.npz': {k: v.ravel() for k, v in par.items()}})
        if r is None:
            return
        data, _, audit = r
        model(c, what, audit, M, shape)
        ev = audit['events'].get('gibbs_init', [])
        if not c.expect(len(ev) == 1 and audit['static']['gibbs_init']['nparticles'] == n and not audit['static']['gibbs_init']['marg_y'],
                        f'{what}: one filter of the requested number of particles', calls=len(ev)):
            return
        (mask,) = ev[0]['extra'].values()
        sp = Split(mask, shape)
        c.expect((np.abs(sp.apart(data)[1] - ev[0]['in']['y0']).max((1, 2)) < 1e-6).sum() == 1, f'{what}: the observation is that of an image of the data set')
        xs = np.asarray(ev[0]['out'][0]).reshape(nsteps + 1, n, -1)
        ts = np.linspace(0, 2, nsteps + 1)
        axes = [x for f in audit['figures'][:1] for x in f['axes']]
        if not c.expect(len(audit['figures']) == 1 and len(axes) == 2, f'{what}: one figure of two panels'):
            return
        left, right = axes[0]['lines'], axes[1]['lines']
        at = []
        for l in left + right:
            k = np.searchsorted(ts, np.asarray(l['x'], float) - 1e-4)
            if not c.expect(len(l['x']) == len(l['y']) and k.max() <= nsteps and np.allclose(ts[k], l['x'], atol=1e-4), f'{what}: lines are drawn at times of the filter'):
                return
            at.append(k)
            c.ev('curves')
        d = [d for d in range(xs.shape[2]) if len(left) == n and all(np.allclose(l['y'], xs[k, p, d], atol=1e-5) for p, (l, k) in enumerate(zip(left, at)))]
        c.expect(len(d) == 1, f'{what}: the trajectories of all the particles at one pixel', lines=len(left))
        sd = 2 * xs.std(1)
        c.expect(len(right) == xs.shape[2] + 1, f'{what}: the spread at every pixel and its quantile', lines=len(right))
        for j, (l, k) in enumerate(zip(right, at[len(left):])):
            q = 'quantile' in l['label']
            w = np.quantile(sd, .95, axis=1) if q else sd[:, min(j, sd.shape[1] - 1)]
            c.close(l['y'], w[k], f'{what}: {"0.95 quantile of the spreads" if q else "twice the standard deviation of the particles"}', rtol=1e-4, atol=1e-5)
    section.__name__ = f'coalescence_{sde}'
    return section


E = [
    same_images,
    restoration('imgs/inpainting.py', 'celeba-2', 1, 'gibbs-eb', 'lin', 60, 1500, 2, True, tol=(.06, .06)),
    restoration('imgs/inpainting.py', 'celeba-3', 1, 'gibbs-eb-ef', 'const', 20, 6, 3, False, ['--marg'], start=1),
    restoration('imgs/inpainting.py', 'celeba-4', 2, 'gibbs', 'lin', 20, 6, 2, True, ['--init_method', 'filter']),
    restoration('imgs/inpainting.py', 'celeba-3', 2, 'filter', 'const', 20, 6, 2, True, ['--marg']),
    restoration('imgs/inpainting.py', 'celeba-3', 1, 'pmcmc-0.25', 'lin', 20, 8, 2, False),
    restoration('imgs/inpainting_csgm.py', 'celeba-2', 1, None, 'lin', 60, 2000, 2, True, tol=(.02, .02)),
    restoration('imgs/inpainting_csgm.py', 'celeba-2', 1, None, 'const', 60, 2000, 1, False, tol=(.02, .02)),
    restoration('imgs/inpainting_twisted.py', 'celeba-2', 1, None, 'lin', 60, 1000, 1, True, nparticles=60, tol=(.08, .08)),
    restoration('imgs/supr.py', 'celeba-2', 2, 'gibbs-eb', 'lin', 60, 1500, 1, True, ['--rnd_mask'], nparticles=60, tol=(.08, .08)),
    restoration('imgs/supr.py', 'celeba-4', 2, 'gibbs-eb-ef', 'const', 20, 6, 2, False),
    restoration('imgs/supr.py', 'mnist', 4, 'filter', 'lin', 10, 3, 2, True, ['--rnd_mask']),
    restoration('imgs/supr.py', 'celeba-4', 2, 'pmcmc', 'const', 20, 6, 2, True),
    restoration('imgs/supr_csgm.py', 'celeba-2', 2, None, 'lin', 60, 2000, 1, False, ['--rnd_mask'], tol=(.02, .02)),
    restoration('imgs/supr_twisted.py', 'celeba-2', 2, None, 'const', 60, 1000, 1, False, nparticles=60, tol=(.12, .12)),
    training('score', 'const', False),
    training('score', 'lin', True, 'exp', True),
    bridge_training(False, 'lin'), bridge_training(True, 'const'),
    bridge_restoration('filter', 'lin'), bridge_restoration('gibbs', 'const'),
    coalescence('lin', True), coalescence('const', False),
]

if __name__ == '__main__':
    run_sections(
        Check('C27', 'Every image experiment script (restoration, baselines, training, bridges) x tasks x methods x noising, run as a user runs it; non-trivial = distinct (script, arguments)',
              ['a stand-in network whose output is known replaces the trained one', 'small synthetic images']),
        E, scripts_run=len(E), images_saved=1000, chain_links=1000, steps_audited=50, training_steps=1000)
