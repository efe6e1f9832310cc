"""C18: datasets: batches enumerate the data without loss or repetition, train and test never mix, corrupted images derive from their own image."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib.core import *
import itertools
import tempfile
import jax
import jax.numpy as jnp
from lib.monitor import *
from fbs.data import MNIST, MNISTRestore, CIFAR10, CelebAHQ, CelebAHQRestore
from fbs.data.base import Dataset
from fbs.data.images import Image, normalise


class Dummy(Dataset):
    pass


def enumeration(c):
    for n, b in [(100, 4), (10, 3), (7, 7), (12, 5), (5, 1), (9, 2), (64, 32)] + ([(int(c.rng.integers(2, 200)), int(c.rng.integers(1, 9))) for _ in range(40)] if c.thorough else []):
        ds = Dummy()
        ds.n, ds.xs = n, jnp.asarray(c.rng.normal(size=(n, 2)))
        m = n // b
        if m == 0:
            continue
        perms = []
        for _ in range(3):
            ret = ds.init_enumeration(c.key(), b)
            c.case('enumeration', {'n': n, 'b': b, 'perm': [np.asarray(r).tolist() for r in ret][:3]})
            d = dict(n=n, batch=b)
            c.expect(len(ret) == m and all(len(r) == b for r in ret), 'n // batch_size batches of batch_size each', got=[len(r) for r in ret], **d)
            a = np.concatenate([np.asarray(r) for r in ret])
            c.expect(np.array_equal(np.sort(a), np.arange(m * b)), 'an epoch takes every datum once (up to the truncation)', **d)
            rows = np.concatenate([np.asarray(ds.enumerate_subset(i)) for i in range(m)])
            c.expect(np.array_equal(rows, np.asarray(ds.xs)[a]), 'batches are the data of their indices', **d)
            other = ds.enumerate_subset(0, perm_inds=[jnp.arange(b)[::-1]])
            c.expect(np.array_equal(other, ds.xs[:b][::-1]), 'given indices override the stored ones', **d)
            c.expect(np.array_equal(np.concatenate([np.asarray(ds.enumerate_subset(i)) for i in range(m)]), rows), 'enumeration is repeatable within an epoch', **d)
            perms.append(a.tolist())
            c.ev('batches', m)
            s = np.asarray(ds.draw_subset(c.key(), b))
            idx = [int(np.flatnonzero((np.asarray(ds.xs) == r).all(1))[0]) if (np.asarray(ds.xs) == r).all(1).any() else -1 for r in s]
            c.expect(s.shape == (b, 2) and -1 not in idx and len(set(idx)) == b, 'a random subset has distinct data', **d)
        c.expect(n < 8 or perms[0] != perms[1], 'epochs are shuffled by the key', n=n, batch=b)


def shuffling_law(c):
    ds = Dummy()
    ds.n = 4
    P = {p: i for i, p in enumerate(itertools.permutations(range(4)))}
    code = jnp.asarray([P.get(tuple(p), 24) for p in itertools.product(range(4), repeat=4)])

    def one(key):
        a = jnp.concatenate(ds.init_enumeration(key, 2))
        return code[((a % 4) * 4 ** jnp.arange(3, -1, -1)).sum()]
    c.case('law', 'permutation')
    c.ev('laws')
    c.law('epoch order', vdraw(one), np.full(24, 1 / 24), R=60_000)
    ds.xs = jnp.arange(4.)[:, None]

    def two(key):
        a = ds.draw_subset(key, 2)[:, 0].astype(int)
        return a[0] * 4 + a[1]
    w = np.array([0. if i == j else 1 / 12 for i in range(4) for j in range(4)])
    c.case('law', 'subset')
    c.ev('laws')
    c.law('random subset', vdraw(two), w, R=60_000)


def reshape_(c):
    for sh in ((), (5,), (5, 2), (2, 3, 4)):
        x = jnp.asarray(c.rng.normal(size=sh))
        want = {0: (1, 1), 1: (5, 1)}.get(len(sh), sh)
        c.expect(np.array_equal(Dataset.reshape(x), np.asarray(x).reshape(want)), 'reshape to (n, ...)', shape=sh)
    x = jnp.asarray(c.rng.normal(size=(500, 3)) * 4 + 2)
    z = np.asarray(Dataset.standardise(x))
    c.close(z.mean(0), np.zeros(3), 'standardised mean', atol=1e-4)
    c.close(z.std(0), np.ones(3), 'standardised deviation', rtol=1e-3)
    c.case('reshape', 'all')


def ids(a):
    """image identity is encoded in its first two pixels"""
    f = np.asarray(a).reshape(a.shape[0], -1)
    return np.rint(f[:, 0]).astype(int) * 256 + np.rint(f[:, 1]).astype(int)


def tagged(n, *sh):
    a = np.zeros((n, int(np.prod(sh))), np.uint8)
    a[:, 0], a[:, 1] = np.arange(n) // 256, np.arange(n) % 256
    a[:, 2:] = (np.arange(n) * 7 % 251)[:, None]
    return a.reshape(n, *sh)


def splits(c):
    with tempfile.TemporaryDirectory() as tmp:
        f = os.path.join(tmp, 'celeba.npy')
        np.save(f, tagged(30000, 4, 4, 3).astype(np.float32))
        for cls in (CelebAHQ, CelebAHQRestore):
            for _ in range(2):
                k = c.key()
                a, b = (cls(k, f, resolution=4, task='supr-2', test=t) for t in (False, True))
                c.case('split', {'dataset': cls.__name__, 'key': np.asarray(k)})
                d = dict(dataset=cls.__name__)
                c.expect(a.n == len(a.xs) and b.n == len(b.xs), 'n is the number of data', **d)
                i, j = ids(a.xs), ids(b.xs)
                c.expect(len(set(i) & set(j)) == 0, 'training and test images are disjoint', common=len(set(i) & set(j)), **d)
                c.expect(np.array_equal(np.sort(np.concatenate([i, j])), np.arange(30000)), 'training and test images are the dataset', **d)
                want = tagged(30000, 4, 4, 3).astype(np.float32)
                c.expect(np.array_equal(np.asarray(a.xs), want[i]) and np.array_equal(np.asarray(b.xs), want[j]), 'shuffling keeps every image intact', **d)
                c.expect(not np.array_equal(np.sort(i), i), 'images are shuffled', **d)
                c.ev('images', 30000)
        f = os.path.join(tmp, 'mnist.npz')
        tr, te = tagged(60000, 784), tagged(10000, 784)
        te[:, 3] = 254
        np.savez(f, X=tr, X_test=te)
        g = os.path.join(tmp, 'cifar.npz')
        ctr, cte = tagged(50000, 3072), tagged(10000, 3072)
        cte[:, 3] = 254
        np.savez(g, train_data=ctr.reshape(-1, 32, 32, 3), test_data=cte.reshape(-1, 32, 32, 3))
        for cls, path, trd, ted, sh in ((MNIST, f, tr, te, (28, 28, 1)), (MNISTRestore, f, tr, te, (28, 28, 1)), (CIFAR10, g, ctr, cte, (32, 32, 3))):
            for test, src in ((False, trd), (True, ted)):
                kw = dict(task='inpaint-15') if cls is MNISTRestore else {}
                ds = cls(c.key(), path, test=test, **kw)
                d = dict(dataset=cls.__name__, test=test)
                c.case('split', d)
                i = ids(ds.xs)
                c.expect(ds.n == len(ds.xs) == len(src) and tuple(ds.image_shape) == sh and ds.xs.shape[1:] == sh, 'number and shape of the images', **d)
                c.expect(np.array_equal(np.sort(i), np.arange(len(src))), 'every image is there once', **d)
                c.expect(np.array_equal(np.asarray(ds.xs).reshape(len(src), -1), src[i]), 'shuffling keeps every image intact; train and test sets are not mixed', **d)
                c.ev('images', len(src))
                del ds


class Img(Image):
    def __init__(self, xs, task):
        self.xs, self.n, self.image_shape, self.task = jnp.asarray(xs, jnp.float32), len(xs), xs.shape[1:], task


def blur(x, v, k):
    g = np.linspace(-1, 1, k)
    ker = np.exp(-(g[:, None] ** 2 + g[None] ** 2) / v)
    s = x.sum(-1)
    pad = (k - 1) // 2
    sp = np.pad(s, ((pad, k - 1 - pad),) * 2)
    out = np.zeros_like(s)
    for i in range(k):
        for j in range(k):
            out += ker[i, j] * sp[i:i + s.shape[0], j:j + s.shape[1]]
    out = (out - out.min()) / (out.max() - out.min())
    return np.repeat(out[..., None], x.shape[-1], -1)


def corrupted(c, what, ds, x, y, d):
    """y must be a corruption of x by the task of ds"""
    x, y = np.asarray(x, float), np.asarray(y, float)
    ok = c.expect(y.shape == x.shape and np.isfinite(y).all(), f'{what}: corrupted image is finite and of the shape of the image', **d)
    if not ok:
        return
    k = int(ds.task.split('-')[-1]) if '-' in ds.task else None
    if 'inpaint' in ds.task:
        gone = (y == 0).all(-1) & (x != 0).any(-1)
        c.expect(np.array_equal(y[~gone], x[~gone]), f'{what}: pixels out of the rectangle are untouched', **d)
        i, j = np.nonzero(gone)
        c.expect(len(i) == k * k and np.ptp(i) == k - 1 and np.ptp(j) == k - 1, f'{what}: a rectangle of the given size is painted', n=len(i), **d)
    elif 'deconv' in ds.task:
        from scipy.optimize import minimize_scalar
        f = lambda lv: np.abs(blur(x, np.exp(lv), k) - y).max()
        gr = np.linspace(np.log(.1), np.log(5.), 25)
        l0 = min(gr, key=f)
        r = minimize_scalar(f, bounds=(l0 - .2, l0 + .2), method='bounded', options=dict(xatol=1e-5))
        c.expect(r.fun < 2e-3 and np.log(.1) - .01 < r.x < np.log(5.) + .01, f'{what}: not a normalised Gaussian blur of the image', err=r.fun, v=np.exp(r.x), **d)
        c.expect(y.min() > -1e-6 and y.max() < 1 + 1e-6, f'{what}: values in [0, 1]', **d)
    else:
        fit = []
        for r in (4, 8):
            B = y.reshape(y.shape[0] // r, r, y.shape[1] // r, r, -1)
            X = x.reshape(B.shape)
            const = (B == B[:, :1, :, :1]).all()
            mem = np.all([[(np.abs(X[i, :, j] - B[i, 0, j, 0]).max(-1) < 1e-6).any() for j in range(B.shape[2])] for i in range(B.shape[0])])
            fit.append(const and mem)
        c.expect(any(fit), f'{what}: not a block-wise constant image of the pixels of the image', **d)
    c.ev('corruptions')


def corruption(c):
    for task, sh in [('inpaint-5', (12, 12, 1)), ('inpaint-15', (28, 28, 1)), ('deconv-15', (28, 28, 1)), ('deconv-5', (16, 16, 3)), ('supr', (16, 16, 3)),
                     ('supr', (32, 32, 1)), ('inpaint-6', (9, 12, 3))]:
        xs = c.rng.uniform(.05, 1, size=(6, *sh))
        ds = Img(xs, task)
        d = dict(task=task, shape=sh)
        outs = []
        for r in range(4 if not c.thorough else 30):
            k = c.key()
            x, y = ds.sampler(k)
            i = [q for q in range(6) if np.array_equal(ds.xs[q], x)]
            c.case('corruption', {**d, 'r': r})
            if c.expect(len(i) == 1, 'the sampled image is one of the dataset', **d):
                corrupted(c, 'sampler', ds, x, y, d)
            y1 = ds.corrupt(k, ds.xs[0])
            c.close(y1, ds.corrupt(k, ds.xs[0]), 'corruption is reproducible', atol=0, **d)
            outs.append(np.asarray(y1))
        outs = np.asarray(jax.vmap(ds.corrupt, in_axes=[0, None])(jax.random.split(c.key(), 60), ds.xs[0]))
        c.expect(any(np.abs(outs[0] - o).max() > 1e-6 for o in outs[1:]), 'the corruption must depend on the key', **d)
        ds.init_enumeration(c.key(), 3)
        for i in range(2):
            xb, yb = ds.enumerate_subset(i, key=c.key())
            c.expect(np.array_equal(xb, ds.xs[ds.perm_inds[i]]), 'clean images of the batch', **d)
            for x, y in zip(xb, yb):
                corrupted(c, 'batch', ds, x, y, d)
        # the same image in a batch: every copy is corrupted on its own
        dt = Img(np.repeat(xs[:1], 60, 0), task)
        dt.init_enumeration(c.key(), 60)
        yb = np.asarray(dt.enumerate_subset(0, key=c.key())[1])
        c.expect(len({q.tobytes() for q in yb}) > 1, 'corruptions are drawn for each image of a batch', **d)
        if 'deconv' in task:  # a continuous draw
            c.expect(len({q.tobytes() for q in yb}) == 60, 'each image of a batch has a corruption of its own', **d)
        x, y = ds.xs[:2], ds.xs[2:4]
        a, b = ds.unpack(ds.concat(x, y))
        c.expect(np.array_equal(a, x) and np.array_equal(b, y), 'unpack inverts concat', **d)
        e = ds.concat(x, y, expand=True)
        c.expect(e.shape == (*x.shape, 2) and np.array_equal(e[..., 0], x) and np.array_equal(e[..., 1], y), 'concat with a new axis', **d)
        ds.task = 'none'
        ds2 = Img(xs, 'none')
        ds2.init_enumeration(c.key(), 3)
        xb, yb = ds2.enumerate_subset(0)
        c.expect(yb is None and np.array_equal(xb, ds2.xs[ds2.perm_inds[0]]), 'no corruption without a task', **d)


def corruption_laws(c):
    """which image, which rectangle, which ratio, which blur: drawn evenly over what is possible, for each image of a batch"""
    sh = (12, 18, 1)
    xs = np.asarray(c.rng.uniform(.2, 1., size=(3, *sh)), np.float32)
    ds = Img(xs, 'inpaint-5')
    imgs = ds.xs

    def where(x, y):
        which = jnp.argmin(jnp.abs(imgs - x).max((1, 2, 3)))
        gone = (y == 0).all(-1)
        return which, jnp.argmax(gone.any(1)), jnp.argmax(gone.any(0))
    rows, cols = np.meshgrid([int((12 - 5) / 3 * i) for i in range(4)], [int((18 - 5) / 3 * i) for i in range(4)], indexing='ij')
    p = np.zeros((3, 12, 18))
    p[:, rows.ravel(), cols.ravel()] = 1 / 48

    def one(key):
        w, i, j = where(*ds.sampler(key))
        return (w * 12 + i) * 18 + j
    c.case('law', 'rectangle')
    c.ev('laws')
    c.law('sampled image and painted rectangle', vdraw(one), p.ravel(), R=40_000)
    ds2 = Img(xs, 'supr')
    ds2.image_shape = (16, 16, 1)
    ds2.xs = jnp.asarray(c.rng.uniform(size=(3, 16, 16, 1)), jnp.float32)

    def two(key):
        x, y = ds2.sampler(key)
        which = jnp.argmin(jnp.abs(ds2.xs - x).max((1, 2, 3)))
        return which * 2 + (y[0, 0, 0] == y[4, 4, 0]) * (y[0, 0, 0] == y[7, 7, 0])
    c.case('law', 'ratio')
    c.ev('laws')
    c.law('sampled image and ratio of the downsampling', vdraw(two), np.full(6, 1 / 6), R=40_000)
    ds3 = Img(np.asarray(c.rng.uniform(.2, 1., size=(2, 12, 12, 1))), 'deconv-7')
    x0 = np.asarray(ds3.xs[0], float)
    edges = np.linspace(.1, 5., 9)
    table = jnp.asarray([blur(x0, v, 7) for v in np.r_[edges]], jnp.float32)
    # the blurred image moves monotonically along the curve of the variance: the pixel that moves most tells the variance
    q = np.unravel_index(int(np.argmax(np.min(np.abs(np.diff(np.asarray(table), axis=0)), axis=0) * (np.abs(np.sign(np.diff(np.asarray(table), axis=0)).sum(0)) == 8))), table.shape[1:])
    vals = np.asarray(table)[(slice(None), *q)]
    sgn = np.sign(vals[-1] - vals[0])

    def three(key):
        y = ds3.corrupt(key, ds3.xs[0])[q]
        return jnp.clip(jnp.searchsorted(jnp.asarray(sgn * vals), sgn * y) - 1, 0, 7)
    if c.expect(np.all(np.diff(sgn * vals) > 0), 'monitor: a pixel that orders the blurs', vals=vals):
        c.case('law', 'blur')
        c.ev('laws')
        c.law('strength of the blur', vdraw(three), np.full(8, 1 / 8), R=10_000)
    # images of a batch: corruptions of neighbours are independent
    dt = Img(np.repeat(xs[:1], 8, 0), 'inpaint-5')

    def four(key):
        _, y = dt.enumerate_subset(0, perm_inds=[jnp.arange(8)], key=key)
        g = (y == 0).all(-1)
        a, b = jnp.argmax(g.any(2), 1), jnp.argmax(g.any(1), 1)
        lev = lambda z, e: jnp.searchsorted(jnp.asarray(e), z)
        r = lev(a, sorted(set(rows.ravel())))
        return r[0] * 4 + r[1]
    c.case('law', 'batch')
    c.ev('laws')
    c.law('rectangles of neighbours in a batch', vdraw(four), np.full(16, 1 / 16), R=20_000)


def rejected(c):
    """a task that does not exist is refused, neither silently replaced nor ignored"""
    x = jnp.ones((8, 8, 1))
    from fbs.data import ImageRestore
    for what, f in (('corrupt', lambda: Img(np.ones((3, 8, 8, 1)), 'denoise-3').corrupt(c.key(), x)), ('restore', lambda: ImageRestore('deconv-3', (8, 8, 1))),
                    ('enumerate', lambda: Img(np.ones((3, 8, 8, 1)), 'denoise-3').enumerate_subset(0, perm_inds=[jnp.arange(2)], key=c.key()))):
        c.case('rejected', what)
        try:
            f()
        except Exception as e:
            c.ev('rejections')
        else:
            c.fail('an unknown task must be refused', what=what)


def restore_enumeration(c):
    """the data sets of the restoration problems hand out the clean images of their batches"""
    from fbs.data import ImageRestore
    for task in ('inpaint-3', 'supr-2'):
        ds = ImageRestore(task, (4, 4, 1))
        ds.n, ds.xs = 23, jnp.asarray(c.rng.normal(size=(23, 4, 4, 1)), jnp.float32)
        for b in (1, 4, 5):
            ds.init_enumeration(c.key(), b)
            c.case('restore', (task, b))
            got = [np.asarray(ds.enumerate_subset(i)) for i in range(23 // b)]
            c.expect(all(np.array_equal(g, ds.xs[np.asarray(p)]) for g, p in zip(got, ds.perm_inds)), 'batches are the images of their indices', task=task, batch=b)
            a = np.concatenate([np.asarray(p) for p in ds.perm_inds])
            c.expect(np.array_equal(np.sort(a), np.arange(23 // b * b)), 'an epoch takes every image once (up to the truncation)', task=task, batch=b)
            c.expect(np.array_equal(ds.enumerate_subset(0, perm_inds=[jnp.array([3, 1])]), ds.xs[jnp.array([3, 1])]), 'given indices override the stored ones', task=task)
            c.ev('batches', len(got))


def normalisation(c):
    for sh in [(5, 5, 1), (8, 6, 3), (2, 4, 4, 3)]:
        x = c.rng.normal(size=sh) * 3
        x[..., 0, :, 0] = 9.
        z = np.asarray(normalise(jnp.asarray(x), method='norm'))
        c.case('normalise', sh)
        c.close(z.min((-3, -2)), np.zeros(z.min((-3, -2)).shape), 'minimum of every channel is 0', atol=1e-6)
        c.close(z.max((-3, -2)), np.ones(z.max((-3, -2)).shape), 'maximum of every channel is 1', rtol=1e-6)
        lo, hi = x.min((-3, -2), keepdims=True), x.max((-3, -2), keepdims=True)
        c.close(z, (x - lo) / (hi - lo), 'normalisation is affine', rtol=1e-5, atol=1e-5)
        z = np.asarray(normalise(jnp.asarray(x)))
        c.close(z, np.clip(x, 0, 1), 'clipping', rtol=1e-6, atol=1e-7)
        for v in (0., 2., .1):
            z = np.asarray(normalise(jnp.full(sh, v), method='norm'))
            c.expect(np.isfinite(z).all() and z.min() >= 0 and z.max() <= 1, 'an image with a constant channel is normalised to values in [0, 1]', got=z.ravel()[:3], value=v)


run_sections(
    Check('C18', 'Synthetic data sets of the real sizes with tagged images x batch sizes x corruption tasks; oracle: identity tags (no loss, repetition or '
          'leak), corruption geometry; non-trivial = distinct configuration', ['image sizes divisible by 8 for the supr corruption']),
    [enumeration, shuffling_law, reshape_, splits, corruption, corruption_laws, rejected, restore_enumeration, normalisation], batches=50, laws=6, rejections=3, images=100_000, corruptions=40)
