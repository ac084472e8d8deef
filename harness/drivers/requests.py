"""Valid and invalid requests to the public entry points."""
import functools

import jax
import jax.numpy as jnp
import numpy as np

import e3x
from drivers import common as cm

DT = {'float32': jnp.float32, 'int32': jnp.int32, 'bool': jnp.bool_, 'complex64': jnp.complex64, 'uint8': jnp.uint8}


def setup(shared):
  cm.use_tables(shared)


def ones(s, dt=jnp.float32):
  return jnp.ones(tuple(s), dt)


def zeros(s):
  return jnp.zeros(tuple(s), jnp.int32)


def run(c):
  q = c['q']
  ev = dict(op=q['op'], q=q, exc='', shape=[-1], key=' '.join(f'{k}={v}' for k, v in sorted(q.items())))
  try:
    y = jax.block_until_ready(globals()['do_' + q['op']](q))
    ev['shape'] = list(y.shape) if hasattr(y, 'shape') else [-1]
  except Exception as ex:  # pylint: disable=broad-except
    ev['exc'], ev['msg'] = type(ex).__name__, str(ex)[:200]
  return [ev]


def do_set(q):
  f = getattr(e3x.nn, f"{q['fn']}_{q['fam']}")
  kw = {'kind': q['kind']} if q['fn'] == 'reciprocal' else {}
  return f(ones(q['x']), q['num'], **kw)


def do_mapping(q):
  return e3x.nn.reciprocal_mapping(ones(q['x']), kind=q['kind'])


def do_cutoff(q):
  return getattr(e3x.nn, q['fam'] + '_cutoff')(ones(q['x']), cutoff=q['c'] / 10)


def do_switch(q):
  return e3x.nn.smooth_switch(ones(q['x']), x0=q['a'] / 10, x1=q['b'] / 10)


def do_basis(q):
  kw = {'cutoff_fn': e3x.nn.smooth_cutoff} if q['cut'] else {}
  y = e3x.nn.basis(ones(q['x']), max_degree=q['L'], num=q['num'], radial_fn=e3x.nn.reciprocal_bernstein,
                   return_cutoff=q['retcut'], **kw)
  return y[0] if q['retcut'] else y


def do_harm(q):
  return e3x.so3.spherical_harmonics(ones(q['x']), q['L'], normalization=q['norm'])


def do_solid(q):
  return e3x.so3.solid_harmonics(ones(q['x']), q['L'])


def do_totensor(q):
  return e3x.so3.irreps_to_tensor(ones(q['x']), q['d'], normalization=q['norm'])


def do_toirreps(q):
  return e3x.so3.tensor_to_irreps(ones(q['x']), q['d'], normalization=q['norm'])


def do_cg(q):
  return e3x.so3.clebsch_gordan(*q['l'])


def do_wigner(q):
  return e3x.so3.wigner_d(ones(q['x']), q['L'])


def do_euler(q):
  return e3x.so3.euler_angles_from_rotation(ones(q['x']))[0]


def do_quad(q):
  f = getattr(e3x.so3, q['kind'] + '_quadrature')
  return f(**{k: q[k][0] for k in ('precision', 'num') if q[k]})[1].sum()


def do_pairwise(q):
  if q['sparse']:
    d, s = e3x.ops.sparse_pairwise_indices(q['n'], mask_self=q['self'])
    assert d.shape == s.shape
    return d.reshape(q['n'], -1) if d.size else jnp.zeros((q['n'], 0))
  return e3x.ops.dense_pairwise_indices(q['n'], mask_self=q['self'])


def do_tosparse(q):
  e3x.ops.dense_to_sparse_indices(zeros(q['x']))
  return 0


def do_todense(q):
  e3x.ops.sparse_to_dense_indices(zeros(q['x']), zeros(q['y']))
  return 0


def lists(q, sparse):
  kw = {}
  if q['adj']:
    kw['adj_idx'] = zeros(q['adj'][0])
  if q['dst']:
    kw[sparse] = zeros(q['dst'][0])
  return kw


def do_gather(q):
  return e3x.ops.gather_src(ones(q['x']), **lists(q, 'src_idx'))


def sized(q, kw):
  if q['sized']:
    if q['adj']:
      kw['where'] = jnp.ones(tuple(q['adj'][0]), bool)
    if q['dst']:
      kw['num_segments'] = q['segments']
  return kw


def do_reduce(q):
  f = getattr(e3x.ops, 'indexed_' + q['mode'])
  kw = sized(q, lists(q, 'dst_idx'))
  if q['keep']:
    kw['keepdims'] = True
  return f(ones(q['x'], DT[q['dtype']]), **kw)


def do_softmax(q):
  kw = sized(q, lists(q, 'dst_idx'))
  if q['mask']:
    kw['multiplicative_mask'] = ones(q['mask'][0])
  return e3x.ops.indexed_softmax(ones(q['x'], DT[q['dtype']]), **kw)


def shaped(mod, *a, **k):
  """Shape of the output of a module without computing it."""
  return jax.eval_shape(lambda: mod.init_with_output(jax.random.PRNGKey(0), *a, **k)[0])


def do_tensor(q):
  mod = (e3x.nn.FusedTensor if q['fused'] else e3x.nn.Tensor)(max_degree=q['L'])
  shaped(mod, ones(q['x']), ones(q['y']))
  return 0


def do_dense(q):
  return shaped(e3x.nn.Dense(5), ones(q['x']))


def do_act(q):
  return getattr(e3x.nn, q['fn'])(ones(q['x']))


def do_embed(q):
  return shaped(e3x.nn.Embed(7, 4), ones(q['x'], DT[q['dtype']]))


def do_heads(q):
  mod = e3x.nn.MultiHeadAttention(num_heads=q['heads'], use_relative_positional_encoding_qk=q['pos'],
                                  use_relative_positional_encoding_v=False)
  bq, bk, F = q['bq'], q['bk'], q['F']
  kw = dict(adj_idx=zeros(bq + [3, 2]))
  if q['basis']:
    kw['basis'] = ones(bq + [3, 2, 1, 4, 2])
  shaped(mod, ones(bq + [3, 1, 4, F]), ones(bk + [3, 1, 4, F]), **kw)
  return 0


def do_message(q):
  kw = lists(q, 'dst_idx')
  if q['dst']:
    kw['src_idx'] = kw['dst_idx']
  if q['sized']:
    if q['adj']:
      kw['where'] = jnp.ones(tuple(q['adj'][0]), bool)
    if q['dst']:
      kw['num_segments'] = 3
  shaped(e3x.nn.MessagePass(), ones([3, 1, 4, 2]), ones(q['bb'] + [1, 4, 2]), **kw)
  return 0


def do_weights(q):
  shaped(e3x.nn.MessagePass(), ones([3, 1, 4, 2]), ones([3, 2, 1, 4, 2]), weights=ones(q['w']), adj_idx=zeros([3, 2]),
         where=jnp.ones((3, 2), bool))
  return 0


def do_gatherdst(q):
  kw = lists(q, 'dst_idx')
  if q['src']:
    kw['src_idx'] = zeros(q['src'][0])
  x = ones([3, 1, 4, 2] if not q['dst'] or len(q['dst'][0]) == 1 else [2, 3, 1, 4, 2])
  e3x.ops.gather_dst(x, **kw)
  return 0


def do_kernel(q):
  f = e3x.nn.initializers.tensor_variance_scaling(1., q['mode'], q['dist'])
  return f(jax.random.PRNGKey(0), tuple(q['x']), jnp.float32)


def do_square(q):
  ds = q['ds']
  n = e3x.matrix.matmat.make_dict_irreps_mult(ds, q['max'])
  irreps = [ones((2 * l + 1, n[l])) for l in range(min(q['max'], 2 * max(ds)) + 1)]
  if q['even']:
    irreps[-1] = ones((2 * len(irreps), irreps[-1].shape[1]))
  if q['short']:
    irreps[0] = irreps[0][:, 1:]
  e3x.matrix.make_square_matrix(irreps, ds, 1, q['max'], False, None)
  return 0


def do_derivs(q):
  y = e3x.ops.evaluate_derivatives(jnp.sin, ones([3]), q['n'])
  assert len(y) == q['n'] + 1 and all(a.shape == (3,) for a in y)
  return 0
