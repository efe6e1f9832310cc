"""C17: inpainting and super-resolution masks split an image into observed and unobserved pixels without loss."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib.core import *
import jax
import jax.numpy as jnp
from fbs.data import ImageRestore

TASKS = [('inpaint-15', (28, 28, 1)), ('inpainting-8', (32, 32, 3)), ('supr-4', (28, 28, 1)), ('supr-2', (8, 8, 3)), ('supr-4', (8, 12, 2)),
         ('supr-3', (12, 6, 1)), ('inpaint-3', (5, 9, 2)), ('inpaint-1', (6, 6, 1)), ('supr-7', (28, 28, 1)), ('inpaint-20', (64, 64, 3)),
         ('inpaint-7', (8, 8, 1)), ('supr-4', (64, 64, 3)), ('supr-8', (16, 8, 1)), ('inpaint-6', (6, 6, 2))]


def datasets(c):
    for task, shape in TASKS:
        for rnd in (True, False) if 'supr' in task else (True, ):
            yield task, shape, rnd, ImageRestore(task, shape, sr_random=rnd)


def partition(c):
    for task, (w, h, ch), rnd, ds in datasets(c):
        s = int(task.split('-')[-1])
        shifts, offs = [], []
        pix = np.arange(w * h).reshape(w, h)
        for r in range(12 if not c.thorough else 120):
            d = dict(task=task, shape=(w, h, ch), sr_random=rnd)
            m = ds.gen_mask(c.key())
            u, o = np.asarray(m.unobs_inds_ravelled), np.asarray(m.obs_inds_ravelled)
            c.case('mask', {**d, 'r': r, 'u': int(u.sum())})
            c.expect(np.array_equal(np.sort(np.concatenate([u, o])), pix.ravel()), 'observed and unobserved pixels must partition the image', **d)
            c.ev('pixels', w * h)
            if 'supr' in task:
                c.expect(len(o) == w * h // s ** 2, 'one observed pixel per block', got=len(o), **d)
                i, j = np.divmod(o, h)
                blk = (i // s) * (h // s) + j // s
                c.expect(np.array_equal(np.sort(blk), np.arange(w * h // s ** 2)), 'every block must have exactly one observed pixel', **d)
                off = np.stack([i % s, j % s], 1)
                if not rnd:
                    c.expect((off == s // 2).all(), 'the observed pixel is the middle of its block when not random', **d)
                offs.append(off)
            else:
                k = min(s, w), min(s, h)
                c.expect(len(u) == k[0] * k[1], 'size of the painted rectangle', got=len(u), **d)
                i, j = np.divmod(u, h)
                c.expect(i.max() - i.min() == k[0] - 1 and j.max() - j.min() == k[1] - 1, 'the unobserved pixels must form a contiguous rectangle', **d)
                shifts.append((i.min(), j.min()))
            x, y = ds.unpack(jnp.zeros((w, h, ch)), m)
            c.expect(x.shape == tuple(ds.unobs_shape) and y.shape == (w * h - x.shape[0], ch), 'shapes of the two parts', got=(x.shape, y.shape), declared=ds.unobs_shape, **d)
        if 'supr' in task and rnd and len(offs) > 1:
            a = np.concatenate(offs)
            cnt = np.bincount(a[:, 0] * s + a[:, 1], minlength=s * s)
            e = len(a) / s ** 2
            p = scipy.stats.chi2.sf(((cnt - e) ** 2 / e).sum(), s * s - 1) if e >= 8 else 1.
            c.expect(p > 1e-9, 'locations of the observed pixels are uniform in the blocks', p=p, **d)
            c.expect(any(not np.array_equal(offs[0], q) for q in offs[1:]), 'random masks must depend on the key', **d)
            if len(offs[0]) > 8:
                c.expect(len({tuple(q) for q in offs[0]}) > 1, 'locations must be drawn per block', **d)
        if shifts and min(w, h) - s > 4:
            c.expect(len(set(shifts)) > 1, 'the rectangle must move with the key', got=shifts[:3], **d)


def roundtrip(c):
    for task, (w, h, ch), rnd, ds in datasets(c):
        for batch in ((), (3,), (2, 2)):
            m = ds.gen_mask(c.key())
            img = np.asarray(c.rng.normal(size=(*batch, w, h, ch)), np.float32)
            img.reshape(-1)[0] = -0.
            d = dict(task=task, shape=(w, h, ch), batch=batch)
            x, y = ds.unpack(jnp.asarray(img), m)
            c.case('roundtrip', {**d, 'v': float(img.sum())})
            c.expect(x.shape == (*batch, *ds.unobs_shape), 'shape of the unobserved part', got=x.shape, **d)
            back = np.asarray(ds.concat(x, y, m))
            c.expect(back.shape == img.shape and np.array_equal(back, img), 'concat must invert unpack bit by bit', **d)
            # parts hold the pixels their indices say, values untouched
            flat = img.reshape(*batch, w * h, ch)
            c.expect(np.array_equal(x, flat[..., np.asarray(m.unobs_inds_ravelled), :]) and np.array_equal(y, flat[..., np.asarray(m.obs_inds_ravelled), :]),
                     'parts are the pixels of their indices', **d)
            u, o = (np.asarray(c.rng.normal(size=z.shape), np.float32) for z in (x, y))
            u2, o2 = ds.unpack(ds.concat(jnp.asarray(u), jnp.asarray(o), m), m)
            c.expect(np.array_equal(u, u2) and np.array_equal(o, o2), 'unpack must invert concat', **d)
            # replacing the unobserved part leaves the observed pixels untouched, and conversely
            z = np.asarray(ds.concat(jnp.asarray(u), y, m)).reshape(*batch, w * h, ch)
            c.expect(np.array_equal(z[..., np.asarray(m.obs_inds_ravelled), :], np.asarray(y)), 'observed pixels survive a change of the others', **d)
            jx, jy = jax.jit(ds.unpack)(jnp.asarray(img), m)
            jb = jax.jit(ds.concat)(jx, jy, m)
            c.expect(np.array_equal(jb, img), 'roundtrip under jit', **d)
            if batch == (3,):
                ms = [ds.gen_mask(c.key()) for _ in range(3)]
                st = jax.tree_util.tree_map(lambda *a: jnp.stack([jnp.asarray(q) for q in a]), *ms)
                vx, vy = jax.vmap(ds.unpack)(jnp.asarray(img), st)
                c.expect(np.array_equal(jax.vmap(ds.concat)(vx, vy, st), img), 'roundtrip with one mask per image', **d)
                for q in range(3):
                    c.expect(np.array_equal(vx[q], ds.unpack(jnp.asarray(img[q]), ms[q])[0]), 'one mask per image', **d)
            c.ev('roundtrips', 2)


def sampler(c):
    for task, shape, rnd, ds in datasets(c):
        ds.n = 5
        ds.xs = jnp.asarray(c.rng.normal(size=(5, *shape)), jnp.float32)
        seen = set()
        for r in range(8):
            k = c.key()
            x, y, m = ds.sampler(k)
            i = [q for q in range(5) if np.array_equal(ds.xs[q], x)]
            c.case('sampler', {'task': task, 'shape': shape, 'r': r})
            c.expect(len(i) == 1, 'the sampled image is one of the dataset', task=task)
            seen.update(i)
            c.expect(np.array_equal(ds.unpack(x, m)[1], y), 'the sampled observation is the observed part of the sampled image', task=task)
            x2, y2, m2 = ds.sampler(k)
            c.expect(np.array_equal(x, x2) and np.array_equal(y, y2) and all(np.array_equal(a, b) for a, b in zip(m, m2)), 'sampler is reproducible', task=task)
        c.expect(len(seen) > 1, 'the sampled image must depend on the key', task=task)


def laws(c):
    """masks and images of the sampler are drawn evenly: rectangles over their positions, observed pixels over their block (independently of the
    next block and whatever the block), images over the data set, and the image tells nothing about the mask"""
    eager = lambda one: (lambda key, R: np.array([one(k) for k in jax.random.split(key, R)]))
    for task, shape in (('inpaint-4', (9, 9, 1)), ('inpainting-5', (9, 12, 2)), ('inpaint-6', (14, 10, 1)), ('inpaint-50', (64, 64, 1)), ('inpaint-15', (28, 28, 1))):
        ds = ImageRestore(task, shape)
        s = int(task.split('-')[-1])
        npos = min(shape[:2]) - s

        def pos(k):
            u = np.asarray(ds.gen_mask(k).unobs_inds_ravelled)
            i, j = np.divmod(u, shape[1])
            return i.min() if i.min() == j.min() else -1
        c.case('law', task)
        c.ev('laws')
        n0 = npos + 1 if any(pos(k) == npos for k in jax.random.split(c.key(), 12 * npos)) else npos  # (whether the last position counts)
        c.law(f'{task}: position of the rectangle', eager(pos), np.full(n0, 1 / n0), R=200)
    for task, shape, b in (('supr-2', (4, 6, 1), (0, 1)), ('supr-2', (6, 4, 2), (0, 5))):
        ds = ImageRestore(task, shape)
        s = int(task.split('-')[-1])
        nb = shape[1] // s

        def off(k):
            o = np.asarray(ds.gen_mask(k).obs_inds_ravelled)
            i, j = np.divmod(o, shape[1])
            at = {(p // s) * nb + q // s: (p % s) * s + q % s for p, q in zip(i, j)}
            return at[b[0]] * s ** 2 + at[b[1]]
        c.case('law', task)
        c.ev('laws')
        c.law(f'{task}: observed pixels of two blocks', eager(off), np.full(s ** 4, s ** -4.), R=12 * s ** 4)
    ds = ImageRestore('inpaint-3', (6, 6, 1))
    ds.n, ds.xs = 4, jnp.arange(4.)[:, None, None, None] * jnp.ones((4, 6, 6, 1))

    def both(k):
        x, y, m = ds.sampler(k)
        return int(x[0, 0, 0]) * 3 + min(int(np.asarray(m.unobs_inds_ravelled).min()) // 7, 2)
    c.case('law', 'image and mask')
    c.ev('laws')
    c.law('sampled image and mask', eager(both), np.full(12, 1 / 12), R=250)


run_sections(
    Check('C17', 'Tasks x image shapes (square and not) x random / deterministic masks x batch shapes; oracle: set partition, block and rectangle geometry, '
          'bitwise roundtrips; non-trivial = distinct mask or image', ['the super-resolution rate divides the image']),
    [partition, roundtrip, sampler, laws], pixels=1000, roundtrips=20, laws=4)
