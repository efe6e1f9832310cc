"""C19: networks: flat-parameter forward passes, batch independence, shapes, time embedding and pixel shuffling."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib.core import *
import jax
import jax.numpy as jnp
import flax.linen as linen
from jax.flatten_util import ravel_pytree
from fbs.nn import make_st_nn, make_nn_with_time, sinusoidal_embedding
from fbs.nn.models import CrescentMLP, GMSBMLP, MNISTResConv, MNISTAutoEncoder, make_simple_st_nn
from fbs.nn.unet import UNet, WeightStandardizedConv, Attention, LinearAttention, AttnBlock, Upsample, Downsample
from fbs.nn.utils import PixelShuffle


def perturb(c, param):
    """parameters away from the (symmetric, zero-bias) initial ones"""
    return param + .05 * jnp.asarray(c.rng.normal(size=param.shape), param.dtype)


def embedding(c):
    for dim in (2, 4, 6, 32, 64, 128):
        for period in (10_000, 100):
            for t in (0., 1., .37, 123.4, c.rng.uniform(0, 50)):
                e = np.asarray(sinusoidal_embedding(jnp.asarray(t, jnp.float32), out_dim=dim, max_period=period))
                c.case('embedding', {'dim': dim, 't': t, 'period': period})
                h = dim // 2
                f = np.exp(-np.log(period) * np.arange(h) / max(h - 1, 1))
                c.close(e, np.concatenate([np.sin(t * f), np.cos(t * f)]), 'sinusoidal embedding', atol=2e-4, rtol=1e-4, dim=dim, t=t)
                c.close(e[:h] ** 2 + e[h:] ** 2, np.ones(h), 'unit circles', rtol=1e-5)
    ts = jnp.asarray(c.rng.uniform(0, 3, (5, 1)), jnp.float32)
    e = sinusoidal_embedding(ts, out_dim=8)
    c.close(e, np.stack([sinusoidal_embedding(t[0], out_dim=8) for t in ts]), 'embedding of a column of times', atol=1e-6)
    for odd in (1, 3, 7):
        try:
            r = sinusoidal_embedding(1., out_dim=odd)
            c.fail('an odd dimension must be refused', dim=odd, got=r.shape)
        except NotImplementedError:
            c.ev('assertions')


class Tiny(linen.Module):
    @linen.compact
    def __call__(self, x, t):
        t = jnp.reshape(t, (-1, *(1,) * (x.ndim - 1)))
        h = linen.Dense(7)(x) + jnp.sin(t) * linen.Dense(7, name='t')(x)
        return linen.Dense(x.shape[-1])(linen.tanh(h))


NETS = {
    'tiny': (lambda: Tiny(), (3,), 2e-5),
    'gmsb': (lambda: GMSBMLP(dim=2, dt=.1), (2,), 2e-5),
    'crescent': (lambda: CrescentMLP(dt=.1), (3,), 2e-5),
    'unet-shuffle': (lambda: UNet(dt=.05, dim=8, upsampling='pixel_shuffle', dim_mults=(1, 2)), (4, 8, 1), 5e-4),
    'unet-init': (lambda: UNet(dt=.05, dim=8, init_dim=16, dim_mults=(2, 4), out_dim=5), (4, 4, 2), 5e-4),
    'resconv-ps': (lambda: MNISTResConv(dt=.1), (784,), 5e-4),
    'resconv-resize': (lambda: MNISTResConv(dt=.1, decoder='resize'), (784,), 5e-4),
}
THOROUGH = {
    'unet-resize': (lambda: UNet(dt=.05, dim=16, upsampling='resize', dim_mults=(1, 2)), (8, 8, 3), 5e-4),
    'unet-3': (lambda: UNet(dt=.05, dim=8, upsampling='pixel_shuffle', dim_mults=(1, 2, 4)), (12, 8, 2), 5e-4),
}
SCALAR_TIME = ('resconv-ps', 'resconv-resize')


def networks(c):
    for nm, (mk, dim, tol) in {**NETS, **(THOROUGH if c.thorough else {})}.items():
        unet = nm.startswith('unet')
        net, B = mk(), 4
        k = c.key()
        if nm in SCALAR_TIME:
            dp = net.init(k, jnp.ones((B, *dim)), jnp.array(1.))
            p0, to_dict = ravel_pytree(dp)
            fwd = lambda x, t, p: net.apply(to_dict(p), x, t)
        else:
            p0, to_dict, fwd = make_st_nn(k, net, dim, B)
            # the flat parameter is a faithful encoding of the parameter tree
            tree = jax.jit(net.init)(k, jnp.ones((B, *dim)), jnp.ones((B,))) if unet else net.init(k, jnp.ones((B, *dim)), jnp.ones((B,)))
            c.expect(all(np.allclose(a, b, rtol=1e-4, atol=1e-6) for a, b in zip(jax.tree_util.tree_leaves(to_dict(p0)), jax.tree_util.tree_leaves(tree))),
                     'initial parameters are those of the network for the key', net=nm)
            c.expect(p0.size == sum(a.size for a in jax.tree_util.tree_leaves(tree)), 'flat parameter holds every weight', net=nm)
            q0 = p0 + 1 if unet and not c.thorough else make_st_nn(c.key(), mk(), dim, B)[0]
            c.expect(q0.shape == p0.shape and not np.array_equal(q0, p0), 'initial parameters must depend on the key', net=nm)
        p = perturb(c, p0)
        c.close(ravel_pytree(to_dict(p))[0], p, 'array-to-dict conversion is invertible', rtol=0, atol=0, net=nm)
        F = jax.jit(fwd)
        x = jnp.asarray(c.rng.normal(size=(B, *dim)), jnp.float32)
        ts = jnp.asarray(c.rng.uniform(.1, 2., B), jnp.float32)
        t = ts if nm not in SCALAR_TIME else ts[0]
        out = np.asarray(F(x, t, p))
        od = (*dim[:-1], 5) if nm == 'unet-init' else dim
        d = dict(net=nm)
        c.case('network', {'net': nm, 'x': float(x.sum())})
        c.ev('forward_passes', 4 * B)
        c.expect(out.shape == (B, *od) and np.isfinite(out).all(), 'shape and finiteness of the output', got=out.shape, **d)
        # (compiled like F: jaxlib 0.4.26 on CPU compiles the linear attention's softmax over axis -3 differently from its eager evaluation)
        c.close(out, jax.jit(net.apply)(to_dict(p), x, t), 'forward pass with the flat parameter', rtol=1e-3, atol=tol, **d)
        sc = np.abs(out).max()
        # each sample is processed on its own
        x2 = x.at[1].set(jnp.asarray(c.rng.normal(size=dim) * 300, jnp.float32))
        t2 = ts.at[1].set(1.7) if nm not in SCALAR_TIME else t
        o2 = np.asarray(F(x2, t2, p))
        keep = [0, 2, 3]
        c.close(o2[keep], out[keep], 'a sample must not depend on the others of the batch', rtol=1e-3, atol=tol * (1 + sc), **d)
        c.expect(np.abs(o2[1] - out[1]).max() > 1e-5 * sc, 'the output must depend on the input', **d)
        perm = np.array([2, 0, 3, 1])
        o3 = np.asarray(F(x[perm], ts[perm] if nm not in SCALAR_TIME else t, p))
        c.close(o3, out[perm], 'equivariance to the order of the batch', rtol=1e-3, atol=tol * (1 + sc), **d)
        if nm not in SCALAR_TIME:
            o4 = np.asarray(F(x, ts * 1.8 + .3, p))
            c.expect(all(np.abs(o4[i] - out[i]).max() > 1e-6 * sc for i in range(B)), 'the output must depend on the time', **d)
        # one time for the whole batch = the same time for each
        a = np.asarray(F(x, ts[0], p))
        if nm not in SCALAR_TIME:
            c.close(a, F(x, jnp.full(B, ts[0]), p), 'scalar time vs time per sample', rtol=1e-3, atol=tol * (1 + sc), **d)
        # a batch of one, and a bare sample where supported
        if nm not in ('tiny', 'unet-shuffle'):
            b = np.asarray(F(x[:1], ts[:1] if nm not in SCALAR_TIME else t, p))
            c.close(b.reshape(od), out[0], 'batch of one', rtol=1e-3, atol=tol * (1 + sc), **d)
        if nm.startswith('unet'):
            b = np.asarray(F(x[0], ts[0], p))
            c.close(b, out[0], 'bare sample', rtol=1e-3, atol=tol * (1 + sc), **d)
        if unet and c.thorough:
            v = np.asarray(jax.vmap(F, in_axes=[0, 0, None])(x, ts, p))
            c.close(v, out, 'vmapped samples', rtol=1e-3, atol=tol * (1 + sc), **d)
        if unet and not c.thorough:
            continue
        g = jax.grad(lambda p_: jnp.sum(F(x, t, p_) ** 2))(p)
        c.expect(np.isfinite(np.asarray(g)).all() and float(jnp.abs(g).max()) > 0, 'gradient with respect to the flat parameter', **d)


def variants(c):
    """constructors not covered above"""
    for B, dim in ((3, 2), (1, 4)):
        k = c.key()
        mod, dp, p, to_dict, fwd = make_simple_st_nn(k, (dim,), B, embed_dim=8)
        x = jnp.asarray(c.rng.normal(size=dim), jnp.float32)
        c.case('variants', {'B': B, 'dim': dim})
        y = fwd(x, jnp.asarray(.3), p)
        c.expect(y.shape == (dim,), 'simple network: shape for one sample', got=y.shape)
        c.close(y, mod.apply(to_dict(p), x, jnp.asarray(.3)).squeeze(), 'simple network: flat parameter', rtol=1e-5, atol=1e-6)
        c.expect(np.abs(np.asarray(y - fwd(x, jnp.asarray(2.), p))).max() > 1e-7, 'simple network: depends on the time')
        xs = jnp.asarray(c.rng.normal(size=(5, dim)), jnp.float32)
        ys = jax.vmap(fwd, in_axes=[0, None, None])(xs, jnp.asarray(.3), p)
        c.close(ys[2], fwd(xs[2], jnp.asarray(.3), p), 'simple network: vmap', rtol=1e-5, atol=1e-6)

    class Plain(linen.Module):
        @linen.compact
        def __call__(self, x):
            return linen.Dense(2)(jnp.tanh(linen.Dense(5)(x)))
    p, to_dict, fwd = make_nn_with_time(Plain(), 2, 3, .25, c.key())
    x = jnp.asarray(c.rng.normal(size=2), jnp.float32)
    c.close(fwd(x, 3., p), Plain().apply(to_dict(p), jnp.array([*x, .75])), 'network with a time input: the time is scaled and appended', rtol=1e-5, atol=1e-6)


def pixel_shuffle(c):
    for s, (B, h, w, ch) in [(2, (2, 3, 4, 1)), (2, (1, 2, 2, 3)), (3, (2, 2, 3, 2)), (1, (1, 2, 2, 2))]:
        x = np.arange(B * h * w * s * s * ch, dtype=np.float32).reshape(B, h, w, s * s * ch)
        y = np.asarray(PixelShuffle(scale=s)(jnp.asarray(x)))
        c.case('pixel shuffle', {'s': s, 'shape': x.shape})
        if not c.expect(y.shape == (B, h * s, w * s, ch), 'pixel shuffle: shape', got=y.shape):
            continue
        c.expect(np.array_equal(np.sort(y.ravel()), np.sort(x.ravel())), 'pixel shuffle: every value is there once')
        for (b, i, j) in np.ndindex(B, h, w):
            blk = y[b, i * s:(i + 1) * s, j * s:(j + 1) * s]
            c.expect(set(blk.ravel()) == set(x[b, i, j]), 'pixel shuffle: a pixel becomes its own block', s=s)
        # row-major sub-pixels of each channel
        want = x.reshape(B, h, w, s, s, ch).transpose(0, 1, 3, 2, 4, 5).reshape(y.shape)
        c.expect(np.array_equal(y, want), 'pixel shuffle: sub-pixels are in row-major order', s=s)


def layers(c):
    """the parts of the U-Net: standardised filters, attention between pixels without positions, resolutions halved and doubled"""
    for B, h, w, ch, out in ((2, 4, 5, 3, 4), (1, 3, 3, 1, 8), (3, 5, 2, 6, 2)):
        x = jnp.asarray(c.rng.normal(size=(B, h, w, ch)), jnp.float32)
        net = WeightStandardizedConv(features=out, kernel_size=(3, 3), padding=1)
        par = net.init(c.key(), x)
        K, b = (np.asarray(par['params'][q]) for q in ('kernel', 'bias'))
        K, b = K + 1. * c.rng.normal(size=K.shape), b + c.rng.normal(size=b.shape)
        run = lambda K_: np.asarray(net.apply({'params': {'kernel': jnp.asarray(K_, jnp.float32), 'bias': jnp.asarray(b, jnp.float32)}}, x))
        got = run(K)
        S = (K - K.mean((0, 1, 2))) / np.sqrt(K.var((0, 1, 2)) + 1e-5)
        xp = np.pad(np.asarray(x, np.float64), ((0, 0), (1, 1), (1, 1), (0, 0)))
        want = sum(np.einsum('bhwi,io->bhwo', xp[:, i:i + h, j:j + w], S[i, j]) for i in range(3) for j in range(3)) + b
        d = dict(shape=x.shape, features=out)
        c.case('layers', {'layer': 'standardised convolution', **d})
        c.close(got, want, 'convolution with standardised filters', rtol=1e-3, atol=1e-3, **d)
        c.close(run(K * np.exp(c.rng.normal(size=out)) * 3 + c.rng.normal(size=out)), got, 'a standardised filter has neither scale nor offset', rtol=1e-2, atol=1e-2, **d)
        for nm, net in (('attention', Attention(heads=2, dim_head=4)), ('linear attention', LinearAttention(heads=2, dim_head=4)),
                        ('attention block', AttnBlock(heads=2, dim_head=4)), ('full attention block', AttnBlock(heads=2, dim_head=4, use_linear_attention=False))):
            x = jnp.asarray(c.rng.normal(size=(B, h, w, 8)) * 2, jnp.float32)
            p0, to_dict = ravel_pytree(net.init(c.key(), x))
            p = p0 + .1 * jnp.asarray(c.rng.normal(size=p0.shape), jnp.float32)
            F = jax.jit(lambda p_, x_: net.apply(to_dict(p_), x_))
            y = np.asarray(F(p, x))
            d = dict(layer=nm, shape=x.shape)
            c.case('layers', d)
            c.expect(y.shape == x.shape and np.isfinite(y).all(), 'attention: shape and finiteness', got=y.shape, **d)
            perm = c.rng.permutation(h * w)
            shuffle = lambda z: jnp.reshape(jnp.reshape(jnp.asarray(z), (B, h * w, -1))[:, perm], (B, h, w, -1))
            c.close(F(p, shuffle(x)), shuffle(y), 'attention treats all pixels alike', rtol=1e-3, atol=1e-3, **d)
            z = np.asarray(F(p, x.at[:, 0, 0].set(jnp.asarray(c.rng.normal(size=8) * 3, jnp.float32))))
            if h * w > 1:
                c.expect(np.abs(z[:, -1, -1] - y[:, -1, -1]).max() > 1e-7, 'a pixel attends to the others', **d)
        x = jnp.asarray(c.rng.normal(size=(B, 2 * h, 2 * w, 4)), jnp.float32)
        for nm, net, want in (('down', Downsample(dim=6), (B, h, w, 6)), ('down', Downsample(), (B, h, w, 4)), ('up', Upsample(dim=3), (B, 4 * h, 4 * w, 3)),
                              ('up', Upsample(method='pixel_shuffle'), (B, 4 * h, 4 * w, 4))):
            y = net.apply(net.init(c.key(), x), x)
            c.expect(y.shape == want, 'resolution', layer=nm, got=y.shape, want=want)
        c.ev('layers', 5)


run_sections(
    Check('C19', 'Networks x random parameters away from their initial values x inputs x times; oracle: batch permutation / substitution, flat vs tree '
          'parameters, closed form of the embedding; non-trivial = distinct network and input', ['float32 tolerances']),
    [embedding, networks, variants, pixel_shuffle, layers], forward_passes=50, layers=10)
