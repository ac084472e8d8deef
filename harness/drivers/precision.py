"""Types and accuracy of results in half, single and double precision."""
import math
import os
import zlib

import jax
import jax.numpy as jnp
import numpy as np

import e3x
from drivers import common as cm
from drivers import transforms as tr

N, S, O = e3x.nn, e3x.so3, e3x.ops
P = {'bfloat16': 8, 'float16': 11, 'float32': 24, 'float64': 53}
CAP = 10 ** 9
X64, DIR = False, ''


def setup(shared):
  global X64, DIR
  DIR = shared['dir']
  X64 = bool(shared.get('x64'))
  if X64:
    jax.config.update('jax_enable_x64', True)
  cm.use_tables(shared)
  tr.X64 = True                      # which kind of arguments to generate
  if not X64:
    # one warning per truncated float64
    import warnings
    warnings.filterwarnings('ignore')


def run(c):
  ev = dict(c, exc='', key=' '.join(f'{k}={v}' for k, v in sorted(c.items())))
  try:
    globals()['run_' + c['op']](c, ev)
  except Exception as ex:  # pylint: disable=broad-except
    ev['exc'], ev['msg'] = type(ex).__name__, str(ex)[:200]
  return [] if c['op'] == 'layerref' and not ev['exc'] else [ev]


def units(x, p):
  """x in units of the roundoff 2^-p."""
  x = float(x) * 2.0 ** p
  return CAP if not x < CAP else int(math.ceil(x))


def err(y, ref, p):
  """Largest error relative to the largest entry, in units of the roundoff."""
  y, ref = np.asarray(y, np.float64), np.asarray(ref, np.float64)
  if y.shape != ref.shape:
    return CAP
  fin = np.isfinite(ref)
  if not np.array_equal(fin, np.isfinite(y)) or np.any(y[~fin] != ref[~fin]):
    return CAP
  if not fin.any():
    return 0
  return units(np.max(np.abs(y - ref)[fin]) / (np.max(np.abs(ref[fin])) + 1e-300), p)


def floating(x):
  return jnp.issubdtype(x.dtype, jnp.floating)


def tname(x):
  return str(x.dtype)


# ---- functions ---------------------------------------------------------------------
def path(c, t):
  return os.path.join(DIR, f"{c['fn']}_{c['variant']}_{t}.npz")


def build(c):
  o, f, args, r = tr.build(dict(fn=c['fn'], variant=c['variant']), 1)
  return o, f, [a[0] for a in args], r


def run_ref(c, ev):
  """Double precision results for rounded arguments; response to a change of 2^-28 of unrounded ones."""
  _, f, args, r = build(c)
  real = [np.issubdtype(a.dtype, np.floating) for a in args]
  for t in c['types']:
    xs = [jnp.asarray(a).astype(t).astype('float64') if q else jnp.asarray(a) for q, a in zip(real, args)]
    ys = f(*xs)
    np.savez(path(c, t), n=len(ys), **{f'a{i}': np.asarray(a) for i, a in enumerate(xs)},
             **{f'y{i}': np.asarray(y) for i, y in enumerate(ys)})
  args = [jnp.asarray(a) for a in args]
  v = [jnp.asarray(r.uniform(.5, 1, size=a.shape) * r.choice([-1, 1], size=a.shape), 'float64') if q
       else np.zeros(a.shape, jax.dtypes.float0) for q, a in zip(real, args)]
  h = 2.0 ** -28
  ys, dy = jax.jvp(f, tuple(args), tuple(v))
  zs = f(*[a + h * t if q else a for q, a, t in zip(real, args, v)])
  ev['ins'] = sorted({tname(a) for q, a in zip(real, args) if q})
  ev['outs'] = [tname(y) for y in ys if floating(y)]
  ev['err'] = [err(np.asarray(z) - h * np.asarray(d), y, 53) if floating(y) else 0 for y, d, z in zip(ys, dy, zs)]


def run_acc(c, ev):
  """Half or single precision against double precision (computed by run_ref)."""
  _, f, args, _ = build(c)
  real = [np.issubdtype(a.dtype, np.floating) for a in args]
  ev['ins'] = list(c['types'])
  ev['outs'], ev['err'] = [], []
  for t in c['types']:
    with np.load(path(c, t)) as z:
      xs = [jnp.asarray(z[f'a{i}']).astype(t) if q else jnp.asarray(z[f'a{i}']) for i, q in enumerate(real)]
      ref = [z[f'y{i}'] for i in range(int(z['n']))]
    ys = f(*xs)
    ev['outs'].append([tname(y) for y in ys if floating(y)])
    ev['err'].append([err(y, r, P[t]) for y, r in zip(ys, ref)] + [CAP] * (len(ref) - len(ys)))


# ---- layers ------------------------------------------------------------------------
NODES, NB = 3, 2
ADJ = np.array([[1, 2], [0, 3], [1, 0]])


def layer_spec(c):
  """module constructor, shapes of the inputs, keyword arguments."""
  k = c['kind']
  f2, f1 = (NODES, 2, 9, 4), (NODES, 1, 9, 4)
  bas = (NODES, NB, 1, 4, 3)
  adj = dict(adj_idx=jnp.asarray(ADJ))
  return {
      'Dense': (lambda **a: N.Dense(3, **a), [f2], {}),
      'Dense1': (lambda **a: N.Dense(3, **a), [f1], {}),
      'Tensor': (lambda **a: N.Tensor(**a), [f2, f2], {}),
      'TensorMixed': (lambda **a: N.Tensor(max_degree=3, **a), [f1, f2], {}),
      'Tensor1': (lambda **a: N.Tensor(include_pseudotensors=False, **a), [f1, f1], {}),
      'FusedTensor': (lambda **a: N.FusedTensor(**a), [f2, f2], {}),
      'FusedTensor1': (lambda **a: N.FusedTensor(**a), [f1, f1], {}),
      'FusedTensorMixed': (lambda **a: N.FusedTensor(max_degree=3, **a), [f2, f1], {}),
      'TensorDense': (lambda **a: N.TensorDense(use_fused_tensor=False, **a), [f1], {}),
      'TensorDenseFused': (lambda **a: N.TensorDense(use_fused_tensor=True, **a), [f1], {}),
      'MessagePass': (lambda **a: N.MessagePass(use_fused_tensor=False, **a), [f1, bas], adj),
      'MessagePassFused': (lambda **a: N.MessagePass(use_fused_tensor=True, **a), [f2, bas], adj),
      'SelfAttention': (lambda **a: N.SelfAttention(num_heads=2, **a), [f1, bas], adj),
      'SelfAttentionPlain': (lambda **a: N.SelfAttention(
          num_heads=2, use_relative_positional_encoding_qk=False, use_relative_positional_encoding_v=False, **a), [f2], adj),
      'MultiHeadAttention': (lambda **a: N.MultiHeadAttention(**a), [f2, f1, bas], adj),
      'Embed': (lambda **a: N.Embed(5, 3, **a), [], {}),
  }[k]


def layer_path(c):
  return os.path.join(DIR, f"layer_{c['n']}.npz")


def layer_args(c, cast):
  make, shapes, kw = layer_spec(c)
  r = cm.rng_for(c['kind'], c['n'])
  ts = [c['in1'], c['in2'], c['in1']]
  xs = [cast(r.normal(size=s), t) for s, t in zip(shapes, ts)]
  if c['kind'] == 'Embed':
    xs = [jnp.asarray([0, 3, 4])]
  return make, xs, kw, r


def params_of(m, xs, kw, r, cast, t):
  shapes = jax.eval_shape(lambda: m.init(jax.random.PRNGKey(0), *xs, **kw))
  return jax.tree_util.tree_map(
      lambda s: cast(r.uniform(.4, 1.3, size=s.shape) * r.choice([-1., 1.], size=s.shape), t), shapes), shapes


def rounded(x, t):
  return jnp.asarray(x).astype(t).astype('float64')


def run_layerref(c, ev):
  del ev
  make, xs, kw, r = layer_args(c, rounded)
  m = make(param_dtype=jnp.float64)
  p, _ = params_of(m, xs, kw, r, rounded, c['param'])
  np.savez(layer_path(c), y=np.asarray(jax.jit(lambda p, *a: m.apply(p, *a, **kw))(p, *xs)))


def run_layer(c, ev):
  cast = lambda x, t: jnp.asarray(x).astype(t) if X64 else jnp.asarray(np.asarray(x).astype(np.float64)).astype(t)
  make, xs, kw, r = layer_args(c, cast)
  dt = {} if c['dtype'] == 'none' else {'dtype': jnp.dtype(c['dtype'])}
  m = make(param_dtype=jnp.dtype(c['param']), **dt)
  p, shapes = params_of(m, xs, kw, r, cast, c['param'])
  ev['params'] = sorted({tname(q) for q in jax.tree_util.tree_leaves(shapes)})
  y = jax.jit(lambda p, *a: m.apply(p, *a, **kw))(p, *xs)
  with np.load(layer_path(c)) as z:
    ref = z['y']
  ev['out'] = tname(y)
  canon = lambda t: 'float32' if t == 'float64' and not X64 else t
  used = [canon(c['param'])] + [canon(t) for t in ([] if c['kind'] == 'Embed' else [c['in1'], c['in2']][:max(1, min(2, len(xs)))])]
  used += [canon(c['dtype'])] if dt else []
  ev['digits'] = min(P[t] for t in used)
  ev['err'] = err(y, ref, ev['digits'])


# ---- identities --------------------------------------------------------------------
def run_identity(c, ev):
  t = 'float64' if X64 else 'float32'
  ev['type'] = t
  r = np.random.default_rng([cm.SEED, zlib.crc32(c['name'].encode()), c['i']])
  pairs = IDS[c['name']](r, c['i'], lambda x: jnp.asarray(x, t))
  ev['err'] = [err(a, b, P[t]) for a, b in pairs]
  ev['outs'] = sorted({tname(a) for a, _ in pairs})


IDS = {}


def ident(f):
  IDS[f.__name__[3:]] = f
  return f


def euler(r, A, n=()):
  return S.rotation_euler(*[A(r.uniform(-3, 3, size=n)) for _ in range(3)])


@ident
def id_rotation(r, i, A):
  R, Q = euler(r, A, (4,)), S.rotation(A(r.normal(size=(4, 3))), A(r.uniform(-3, 3, size=4)))
  I = np.broadcast_to(np.eye(3), (4, 3, 3))
  T = lambda x: jnp.swapaxes(x, -1, -2)
  u, v = A(r.normal(size=(4, 3))), A(r.normal(size=(4, 3)))
  al = S.alignment_rotation(u, v)
  nrm = lambda x: x / jnp.linalg.norm(x, axis=-1, keepdims=True)
  R2 = S.rotation_euler(*[A(r.uniform(-1.2, 1.2, size=4)) for _ in range(3)])
  return [(R @ T(R), I), (Q @ T(Q), I), (al @ T(al), I), (jnp.einsum('na,nab->nb', nrm(u), al), nrm(v)),
          (S.rotation_euler(*S.euler_angles_from_rotation(R2)), R2)]


@ident
def id_norm(r, i, A):
  x = A(r.normal(size=(5, 3)) * 2.0 ** r.integers(-8, 8, size=(5, 1)))
  n = O.normalize(x, axis=-1)
  m, s = O.normalize_and_return_norm(x, axis=-1, keepdims=True)
  return [(jnp.sum(n * n, -1), np.ones(5)), (m * s / O.norm(x, axis=-1, keepdims=True), n),
          (O.norm(3 * x, axis=-1), 3 * np.asarray(O.norm(x, axis=-1)))]


@ident
def id_harmonics(r, i, A):
  L = i % 5
  x = A(r.normal(size=(4, 3)))
  out = []
  for nm, k in (('racah', lambda l: 1.), ('4pi', lambda l: 2 * l + 1.), ('orthonormal', lambda l: (2 * l + 1) / (4 * math.pi))):
    y = S.spherical_harmonics(x, L, normalization=nm, cartesian_order=bool(i % 2))
    for l in range(L + 1):
      out.append((jnp.sum(y[:, l * l:(l + 1) ** 2] ** 2, -1), np.full(4, k(l))))
  R = euler(r, A)
  D = S.wigner_d(R, L, cartesian_order=bool(i % 2))
  kw = dict(max_degree=L, cartesian_order=bool(i % 2))
  out.append((S.spherical_harmonics(x @ R, **kw), np.asarray(S.spherical_harmonics(x, **kw) @ D)))
  out.append((S.solid_harmonics(x @ R, **kw), np.asarray(S.solid_harmonics(x, **kw) @ D)))
  return out


@ident
def id_wigner(r, i, A):
  L, cart = i % 5, bool(i % 2)
  R, Q = euler(r, A), euler(r, A)
  D = lambda x: S.wigner_d(x, L, cartesian_order=cart)
  return [(D(R) @ D(R).T, np.eye((L + 1) ** 2)), (D(R) @ D(Q), np.asarray(D(R @ Q))), (D(R.T), np.asarray(D(R).T))]


@ident
def id_clebsch(r, i, A):
  a, b, c = i % 4, (i // 2) % 4, (i * 3) % 4
  c = min(c, a + b)
  cart = bool(i % 2)
  C = S.clebsch_gordan(a, b, c, cartesian_order=cart)
  R = euler(r, A)
  Da, Db, Dc = (S.wigner_d(R, l, cartesian_order=cart) for l in (a, b, c))
  out = [(jnp.einsum('ia,jb,kc,abc->ijk', Da, Db, Dc, C), np.asarray(C))]
  for l in range(c + 1):
    for la in range(a + 1):
      for lb in range(b + 1):
        if abs(la - lb) <= l <= la + lb:
          B = C[la * la:(la + 1) ** 2, lb * lb:(lb + 1) ** 2, l * l:(l + 1) ** 2]
          out.append((jnp.einsum('abk,abl->kl', B, B), np.eye(2 * l + 1)))
  return out


@ident
def id_tensors(r, i, A):
  d = i % 4
  e = A(r.normal(size=(3, 2 * d + 1)))
  return [(S.tensor_to_irreps(S.irreps_to_tensor(e, d), d), e)]


@ident
def id_quadrature(r, i, A):
  p = (3, 5, 7, 9, 11, 15, 17)[i % 7]
  g, w = S.lebedev_quadrature(precision=p) if i % 2 else S.delley_quadrature(num=(14, 26, 50, 110)[i % 4])
  L = 3
  y = S.spherical_harmonics(A(g), L, normalization='racah')
  want = np.eye(1, (L + 1) ** 2)[0]
  return [(jnp.einsum('n,nk->k', A(w), y) / jnp.sum(w), want), (jnp.sum(g * g, -1), np.ones(len(g)))]


@ident
def id_radial(r, i, A):
  k = 1 + i % 6
  x, y = A(r.uniform(.05, .95, size=6)), A(r.uniform(.05, .95, size=6))
  one = np.ones(6)
  th = A(r.uniform(.2, 2.9, size=6))
  return [(jnp.sum(N.basic_bernstein(x, num=k, limit=1.), -1), one),
          (jnp.sum(N.triangular_window(x, num=k + 1, limit=2.), -1), one),
          (N.cosine_cutoff(x) + N.cosine_cutoff(1 - x), one),
          (N.smooth_switch(x) + N.smooth_switch(1 - x), one),
          (N.exponential_mapping(x, gamma=.7) * N.exponential_mapping(y, gamma=.7), np.asarray(N.exponential_mapping(x + y, gamma=.7))),
          (1 / N.reciprocal_mapping(x) - 1, np.asarray(x)),
          (N.basic_chebyshev((1 + jnp.cos(th)) / 2, num=k, limit=1.), np.asarray(jnp.cos(th[:, None] * jnp.arange(k)))),
          (jax.nn.softplus(O.inverse_softplus(x)), x),
          (jnp.log(N.smooth_cutoff(x)), np.asarray(-(x * x) / (1 - x * x)))]


@ident
def id_layers(r, i, A):
  """Equivariance of layers."""
  kind = ('TensorMixed', 'FusedTensorMixed', 'Tensor', 'FusedTensor', 'TensorDense', 'TensorDenseFused', 'MessagePass',
          'MessagePassFused', 'SelfAttention', 'MultiHeadAttention')[i % 10]
  make, shapes, kw = layer_spec(dict(kind=kind))
  t = 'float64' if X64 else 'float32'
  m = make(param_dtype=jnp.dtype(t))
  xs = [A(r.normal(size=s)) for s in shapes]
  p, _ = params_of(m, xs, kw, r, lambda v, t: jnp.asarray(v, t), t)
  R = euler(r, A)
  rot = lambda x: N.rotate(x, S.wigner_d(R, math.isqrt(x.shape[-2]) - 1))
  f = jax.jit(lambda *a: m.apply(p, *a, **kw))
  return [(f(*[rot(x) for x in xs]), np.asarray(rot(f(*xs))))]


def erf(x):
  return np.vectorize(math.erf)(np.asarray(x, np.float64))


def softplus(x):
  return np.logaddexp(x, 0)


def where(c, a, b):
  return np.where(c, a, b)


SELU = (1.0507009873554804934193349852946, 1.6732632423543772848170429916717)
FORMULAS = {
    'bent_identity': lambda x: (np.sqrt(x * x + 1) - 1) / 2 + x,
    'celu': lambda x: where(x > 0, x, np.expm1(x)),
    'elu': lambda x: where(x > 0, x, np.expm1(x)),
    'gelu': lambda x: x / 2 * (1 + np.tanh(math.sqrt(2 / math.pi) * (x + .044715 * x ** 3))),
    'hard_silu': lambda x: x * np.clip(x + 3, 0, 6) / 6,
    'hard_swish': lambda x: x * np.clip(x + 3, 0, 6) / 6,
    'hard_tanh': lambda x: np.clip(x, -1, 1),
    'leaky_relu': lambda x: where(x > 0, x, .01 * x),
    'mish': lambda x: x * np.tanh(softplus(x)),
    'relu': lambda x: np.maximum(x, 0),
    'relu6': lambda x: np.clip(x, 0, 6),
    'selu': lambda x: SELU[0] * where(x > 0, x, SELU[1] * np.expm1(x)),
    'serf': lambda x: x * erf(softplus(x)),
    'shifted_softplus': lambda x: softplus(x) - math.log(2),
    'silu': lambda x: x / (1 + np.exp(-x)),
    'soft_sign': lambda x: x / (1 + np.abs(x)),
    'swish': lambda x: x / (1 + np.exp(-x)),
}


@ident
def id_activation(r, i, A):
  """Scalars, against the defining formulas in double precision."""
  del i
  x = A(r.uniform(-4, 4, size=(8, 1, 1, 1)))
  X = np.asarray(x, np.float64)
  return [(getattr(N, k)(x), f(X)) for k, f in FORMULAS.items()]


@ident
def id_functions(r, i, A):
  """Cutoffs, mappings, dampings and Gaussians, against the defining formulas in double precision."""
  k = 2 + i % 4
  x = A(r.uniform(.05, .95, size=6))
  X = np.asarray(x, np.float64)
  sw = math.sqrt(3) / 2
  lin = np.arange(k)
  from math import comb
  bern = np.stack([comb(k - 1, v) * X ** v * (1 - X) ** (k - 1 - v) for v in range(k)], -1)
  return [(N.smooth_cutoff(x, cutoff=1.3), np.exp(1 - 1 / (1 - (X / 1.3) ** 2))),
          (N.cosine_cutoff(x, cutoff=1.3), (np.cos(np.pi * X / 1.3) + 1) / 2),
          (N.smooth_switch(x), 1 / (1 + np.exp(sw * (1 / X - 1 / (1 - X))))),
          (N.smooth_damping(x, gamma=2.), np.exp(-1 / np.expm1(2 * X))),
          (N.exponential_mapping(x, gamma=.3), np.exp(-.3 * X)),
          (N.exponential_mapping(x, gamma=.3, cuspless=True), np.exp(-.3 * (X + np.expm1(-X)))),
          (N.reciprocal_mapping(x), 1 / (X + 1)),
          (N.basic_bernstein(x, num=k, limit=1.), bern),
          (N.basic_fourier(x, num=k, limit=1.), np.cos(np.pi * lin * X[:, None])),
          (N.sinc(x, num=k, limit=1.), np.sinc((lin + 1) * X[:, None]))]
