"""Replays histories of configuration changes and calls (spec/MCConfig.tla)."""
import functools
import itertools

import jax
import jax.numpy as jnp
import numpy as np

import e3x
from drivers import common as cm

VALUES = {'order': ['cart', 'std'], 'norm': ['racah', 'schmidt', '4pi', 'orthonormal'],
          'fused': ['fused', 'plain']}
READS = {'spherical_harmonics': ['order', 'norm'], 'tensor_to_irreps': ['order', 'norm'],
         'irreps_to_tensor': ['order', 'norm'], 'solid_harmonics': ['order'],
         'clebsch_gordan': ['order'], 'clebsch_gordan_for_degrees': ['order'], 'wigner_d': ['order'],
         'basis': ['order'], 'exponential_basis': ['order'], 'tensor': ['order'],
         'fused_tensor': ['order'], 'tensor_dense': ['order', 'fused'],
         'message_pass': ['order', 'fused'], 'self_attention': ['order', 'fused'],
         'multi_head_attention': ['order', 'fused'], 'make_square_matrix': [], 'rotate': []}
_ref = {}
q = np.random.default_rng(11)
R = q.normal(size=(2, 3)).astype(np.float32)
ROT = np.linalg.qr(q.normal(size=(3, 3)))[0].astype(np.float32)
T2 = q.normal(size=(3, 3)).astype(np.float32)
X1 = q.normal(size=(2, 1, 9, 1)).astype(np.float32)
X2 = q.normal(size=(2, 1, 9, 1)).astype(np.float32)
DST, SRC = jnp.array([0, 1]), jnp.array([1, 0])
RIJ = q.normal(size=(2, 3)).astype(np.float32)
MATW = [q.normal(size=(2 * l + 1, 9)).astype(np.float32) for l in range(3)]
D4 = q.normal(size=(9, 9)).astype(np.float32)


def setup(shared):
  cm.use_tables(shared, memo=False)


def kwargs(x):
  k = {}
  if x.get('order'):
    k['cartesian_order'] = x['order'] == 'cart'
  if x.get('norm'):
    k['normalization'] = x['norm']
  if x.get('fused'):
    k['use_fused_tensor'] = x['fused'] == 'fused'
  return k


def apply(mod, *a, **k):
  par = cm.init_params(mod, np.random.default_rng(5), *a, **k)
  return jax.jit(functools.partial(mod.apply, **k))(par, *a)


def call(site, x, jit=False):
  k = kwargs(x)
  s, n = e3x.so3, e3x.nn
  rad = functools.partial(n.basic_gaussian, limit=4.0)
  a1, a2 = jnp.asarray(X1), jnp.asarray(X2)
  wrap = jax.jit if jit else lambda f: f
  if site == 'spherical_harmonics':
    y = wrap(lambda r: s.spherical_harmonics(r, 2, **k))(R)
  elif site == 'solid_harmonics':
    y = wrap(lambda r: s.solid_harmonics(r, 2, **k))(R)
  elif site == 'clebsch_gordan':
    y = s.clebsch_gordan(1, 2, 1, **k)
  elif site == 'clebsch_gordan_for_degrees':
    y = s.clebsch_gordan_for_degrees(1, 2, 2, **k)
  elif site == 'tensor_to_irreps':
    y = wrap(lambda t: s.tensor_to_irreps(t, degree=2, **k))(T2)
  elif site == 'irreps_to_tensor':
    y = wrap(lambda t: s.irreps_to_tensor(t, degree=2, **k))(MATW[2][:, 0])
  elif site == 'wigner_d':
    y = wrap(lambda r: s.wigner_d(r, 2, **k))(ROT)
  elif site == 'basis':
    y = wrap(lambda r: n.basis(r, max_degree=2, num=3, radial_fn=rad, **k))(R)
  elif site == 'exponential_basis':
    m = n.ExponentialBasis()
    f = functools.partial(m.apply, {'params': {'gamma': jnp.float32(0.7)}}, max_degree=1, num=3,
                          radial_fn=n.exponential_bernstein, **k)
    y = wrap(f)(jnp.asarray(R))
  elif site == 'make_square_matrix':
    y = e3x.matrix.make_square_matrix([jnp.asarray(w) for w in MATW], [0, 1], 1, 2, True, 'highest')
  elif site == 'rotate':
    y = n.rotate(a1, jnp.asarray(D4))
  elif site == 'tensor':
    y = apply(n.Tensor(max_degree=2, **k), a1, a2)
  elif site == 'fused_tensor':
    y = apply(n.FusedTensor(max_degree=2, **k), a1, a2)
  elif site == 'tensor_dense':
    y = apply(n.TensorDense(max_degree=2, **k), a1)
  else:
    b = n.basis(jnp.asarray(RIJ), max_degree=2, num=1, radial_fn=rad,
                **({'cartesian_order': k['cartesian_order']} if 'cartesian_order' in k else {}))
    kk = dict(k, include_pseudotensors=False)
    if site == 'message_pass':
      y = apply(n.MessagePass(max_degree=2, **kk), a1, b, dst_idx=DST, src_idx=SRC)
    elif site == 'self_attention':
      y = apply(n.SelfAttention(max_degree=2, **kk), a1, b, dst_idx=DST, src_idx=SRC)
    else:
      y = apply(n.MultiHeadAttention(max_degree=2, **kk), a1, a2, b, dst_idx=DST, src_idx=SRC)
  return np.asarray(y, np.float64)


def current():
  c = e3x.Config
  return {'order': 'cart' if c.cartesian_order is True else 'std' if c.cartesian_order is False else '?',
          'norm': str(c.normalization),
          'fused': 'fused' if c.use_fused_tensor is True else 'plain' if c.use_fused_tensor is False else '?'}


def assign(d):
  e3x.Config.set_cartesian_order(d['order'] == 'cart')
  e3x.Config.set_normalization(d['norm'])
  e3x.Config.set_use_fused_tensor(d['fused'] == 'fused')


def refs(site):
  if site not in _ref:
    now = current()
    assign({'order': 'cart', 'norm': 'racah', 'fused': 'plain'})
    ks = READS[site]
    _ref[site] = [(dict(zip(ks, v)), call(site, dict(zip(ks, v))))
                  for v in itertools.product(*[VALUES[o] for o in ks])]
    assign(now)
  return _ref[site]


def close(a, b):
  return a.shape == b.shape and bool(np.allclose(a, b, rtol=2e-4, atol=2e-5 * max(1.0, np.max(np.abs(b), initial=0))))


def run(c):
  assign({'order': 'cart', 'norm': 'racah', 'fused': 'plain'})
  out = []
  for i, h in enumerate(c['hist']):
    r = {'a': h['a'], 'exc': ''}
    try:
      if h['a'] == 'set':
        r |= {'o': h['o'], 'v': h['v']}
        if h['o'] == 'order':
          e3x.Config.set_cartesian_order(h['v'] == 'cart')
        elif h['o'] == 'norm':
          e3x.Config.set_normalization(h['v'])
        else:
          e3x.Config.set_use_fused_tensor(h['v'] == 'fused')
      elif h['a'] == 'reset':
        r['o'] = h['o']
        {'order': e3x.Config.set_cartesian_order, 'norm': e3x.Config.set_normalization,
         'fused': e3x.Config.set_use_fused_tensor}[h['o']]()
      elif h['a'] == 'bad':
        e3x.Config.set_normalization(h['v'])
      else:
        x = h['x'] if isinstance(h['x'], dict) else {}
        r |= {'s': h['s'], 'x': x or {'none': ''}}
        ref = refs(h['s'])
        y = call(h['s'], x, jit=(i % 3 == 0))
        r['all'] = [m or {'none': ''} for m, _ in ref]
        r['match'] = [m or {'none': ''} for m, v in ref if close(y, v)]
    except Exception as ex:  # pylint: disable=broad-except
      r['exc'] = type(ex).__name__
      r['msg'] = str(ex)[:200]
      r.setdefault('match', [])
      r.setdefault('all', [])
    r['cfg'] = current()
    out.append(r)
  return [{'op': 'history', 'hist': out,
           'key': ' '.join(h.get('s', h['a']) for h in out)}]
