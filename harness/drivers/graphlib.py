"""Message passing and attention on point clouds, as functions of (x, positions)."""
import functools

import jax
import jax.numpy as jnp
import numpy as np

import e3x
from drivers import common as cm

RADIAL = {'recb': e3x.nn.reciprocal_bernstein, 'basicg': functools.partial(e3x.nn.basic_gaussian, limit=5.0),
          'expb': functools.partial(e3x.nn.exponential_bernstein, cuspless=True),
          'sinc': functools.partial(e3x.nn.sinc, limit=5.0)}


def build(c):
  """The layer of configuration c."""
  k = c['kind']
  kw = dict(include_pseudotensors=c['incl'], use_fused_tensor=c['fused'],
            cartesian_order=c['cart'], use_basis_bias=c['bbias'])
  if not c['fused']:
    kw['tensor_kernel_init'] = jax.nn.initializers.ones   # parameters are replaced anyway
  if c['L3'] >= 0:
    kw['max_degree'] = c['L3']
  if k == 'mp':
    return e3x.nn.MessagePass(**kw)
  kw.update(num_heads=c['heads'], use_relative_positional_encoding_qk=c['relqk'],
            use_relative_positional_encoding_v=c['relv'], query_use_bias=c['qbias'],
            key_use_bias=c['kbias'], value_use_bias=c['vbias'], output_use_bias=c['obias'])
  if c['qkv']:
    kw['qkv_features'] = c['qkv']
  if c['Fout']:
    kw['out_features'] = c['Fout']
  return (e3x.nn.SelfAttention if k == 'self' else e3x.nn.MultiHeadAttention)(**kw)


def displacements(rq, rk, idx, junk):
  """r_source - r_destination for every entry; padding gets junk."""
  nb = rq.ndim - 2
  n, m = rq.shape[-2], rk.shape[-2]
  pk = jnp.concatenate([rk, jnp.broadcast_to(junk, rk.shape[:-2] + (4, 3))], axis=-2)
  pq = jnp.concatenate([rq, jnp.broadcast_to(-junk, rq.shape[:-2] + (4, 3))], axis=-2)
  pick = lambda p, i: p[i]
  for _ in range(nb):
    pick = jax.vmap(pick)
  if 'adj_idx' in idx:
    return pick(pk, jnp.minimum(idx['adj_idx'], m + 3)) - rq[..., :, None, :]
  return pick(pk, jnp.minimum(idx['src_idx'], m + 3)) - pick(pq, jnp.minimum(idx['dst_idx'], n + 3))


def call(c, mod, par, xq, xk, rq, rk, idx, weights=None, scale=None, init=False, **kw):
  """Applies the layer; idx is {'adj_idx'} or {'dst_idx', 'src_idx'}."""
  junk = jnp.asarray([0.9, -0.4, 1.3], xq.dtype)
  r = displacements(rq, rk, idx, junk)
  need = c['kind'] == 'mp' or c['relqk'] or c['relv']
  cut = functools.partial(e3x.nn.smooth_cutoff, cutoff=c['rcut']) if c['cutoff'] else None
  args = {}
  if need:
    args['basis'] = e3x.nn.basis(
        r, max_degree=c['Lb'], num=c['K'], radial_fn=RADIAL[c['radial']],
        cutoff_fn=cut, cartesian_order=c['cart'])
  if c['kind'] == 'mp':
    if weights is not None:
      args['weights'] = weights
    inputs = (xk,)
  else:
    if c['cutoff'] or scale is not None:
      v = jnp.ones(r.shape[:-1], xq.dtype)
      if c['cutoff']:
        v = cut(jnp.sqrt(jnp.sum(jnp.square(r), -1) + 1e-12))
      if scale is not None:
        v = v * scale
      args['cutoff_value'] = v
    inputs = (xk,) if c['kind'] == 'self' else (xq, xk)
  f = mod.init if init else mod.apply
  return f(par, *inputs, **args, **idx, **kw)


def params(c, mod, rng, *a):
  a = [v if isinstance(v, dict) else jnp.asarray(v) for v in a]
  shapes = jax.eval_shape(lambda: call(c, mod, jax.random.PRNGKey(0), *a, init=True))
  return jax.tree_util.tree_map(lambda v: 0.8 * v, cm.random_params(shapes, rng))


def features(rng, b, n, P, L, F):
  return rng.normal(size=(*b, n, P, (L + 1) ** 2, F)).astype(np.float32)
