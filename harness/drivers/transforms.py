"""One function under different transformations (jit, vmap, loops, layouts)."""
import functools
import zlib

import jax
import jax.numpy as jnp
import numpy as np

import e3x
from drivers import common as cm

N, S, O, M = e3x.nn, e3x.so3, e3x.ops, e3x.matrix
U = 1000000
ACTS = ('bent_identity celu elu gelu hard_silu hard_swish hard_tanh leaky_relu mish relu relu6 selu serf '
        'shifted_softplus silu soft_sign swish').split()
FAMS = 'bernstein chebyshev fourier gaussian'.split()
OPS = {}
X64 = False


def setup(shared):
  global X64
  cm.use_tables(shared)
  if (shared or {}).get('x64'):
    X64 = True
    jax.config.update('jax_enable_x64', True)


def dtype():
  return np.float64 if X64 else np.float32


def op(name, variants, tol=30, gtol=200, diff=True, batch=True, fd=2000):
  def deco(f):
    OPS[name] = dict(make=f, variants=variants, tol=tol, gtol=gtol, diff=diff, batch=batch, fd=fd)
    return f
  return deco


def table():
  """What exists: name -> number of variants and capabilities (used by the check)."""
  return {k: dict(variants=len(o['variants']), diff=o['diff'], batch=o['batch']) for k, o in OPS.items()}


# ---- element generators: arrays (n, *core) -----------------------------------------
def normal(r, n, *s):
  return r.normal(size=(n,) + s)


def feat(r, n, P, L, F, lead=()):
  return normal(r, n, *lead, P, (L + 1) ** 2, F)


def rots(r, n):
  q, _ = np.linalg.qr(normal(r, n, 3, 3))
  return q * np.sign(np.linalg.det(q))[:, None, None]


def scaled(x, r):
  """Elements of very different magnitude, one of them zero."""
  k = r.permutation(len(x))
  s = np.array([2.0 ** (25 * i - 75) if i else 0.0 for i in k])
  return x * s.reshape((-1,) + (1,) * (x.ndim - 1))


def apply(mod, args, r, **kw):
  """A module with fixed random parameters."""
  p = cm.init_params(mod, r, *[jnp.asarray(a[0]) for a in args], **kw)
  return lambda *a: mod.apply(p, *a, **kw)


# ---- radial functions --------------------------------------------------------------
@op('basic', [(f, k) for f in FAMS for k in (1, 4)] + [(f, k) for f in ('sinc',) for k in (1, 5)], tol=60, gtol=2000)
def _(r, n, v):
  f = N.sinc if v[0] == 'sinc' else getattr(N, 'basic_' + v[0])
  return functools.partial(f, num=v[1], limit=2.0), [r.uniform(.05, 1.9, size=n)]


@op('window', [(f, k) for f in ('triangular', 'smooth') for k in (2, 5)], tol=60, gtol=2000)
def _(r, n, v):
  return functools.partial(getattr(N, v[0] + '_window'), num=v[1], limit=2.0), [r.uniform(.05, 1.9, size=n)]


@op('reciprocal', [(f, kind, w) for f in FAMS for kind in ('shifted', 'damped', 'cuspless') for w in (False, True)],
    tol=60, gtol=2000)
def _(r, n, v):
  f = functools.partial(getattr(N, 'reciprocal_' + v[0]), num=4, kind=v[1], use_reciprocal_weighting=v[2])
  return f, [r.uniform(.2, 8., size=n)]


@op('exponential', [(f, c, w) for f in FAMS for c in (False, True) for w in (False, True)], tol=60, gtol=2000)
def _(r, n, v):
  f = functools.partial(getattr(N, 'exponential_' + v[0]), num=4, gamma=.7, cuspless=v[1], use_exponential_weighting=v[2])
  return f, [r.uniform(.2, 5., size=n)]


SCALARS = ([(f, {}) for f in ('smooth_cutoff', 'cosine_cutoff', 'smooth_damping', 'smooth_switch', 'exponential_mapping',
                             'reciprocal_mapping', 'inverse_softplus')] +
           [('smooth_cutoff', {'cutoff': 2.}), ('cosine_cutoff', {'cutoff': 2.}), ('smooth_damping', {'gamma': 2.5}),
            ('exponential_mapping', {'gamma': .4, 'cuspless': True}), ('reciprocal_mapping', {'kind': 'damped'}),
            ('reciprocal_mapping', {'kind': 'cuspless'})] +
           [('smooth_switch', {'x0': a, 'x1': b}) for a, b in ((.2, 1.9), (.5, 1.5), (-.5, 1.), (0., 2.), (.6, 1.))])


@op('scalar', SCALARS, gtol=2000)
def _(r, n, v):
  f = getattr(O if v[0] == 'inverse_softplus' else N, v[0])
  x = r.uniform(.3, 1.8, size=n)
  if v[0].endswith('cutoff'):
    x[r.integers(n)] = 2.5                      # one element outside
  if v[0].endswith('cutoff') and not v[1] or v[1].get('x1') == 1. or v == ('smooth_switch', {}):
    x = .25 + .4 * x                            # inside
  return functools.partial(f, **v[1]), [x]


# ---- geometry ----------------------------------------------------------------------
@op('norm', [(f, a) for f in ('norm', 'normalize', 'normalize_and_return_norm') for a in (1, 2)], gtol=300)
def _(r, n, v):
  f, k = getattr(O, v[0]), v[1]
  x = scaled(normal(r, n, *(3, 4)[:k]), r)
  if X64:
    x = normal(r, n, *(3, 4)[:k])
  if k == 1:
    return functools.partial(f, axis=-1), [x]
  return functools.partial(f, axis=(-2, -1)), [x]


@op('harmonics', [(L, c, nm) for L, c, nm in ((0, True, 'racah'), (1, False, '4pi'), (2, True, 'orthonormal'), (3, False, 'schmidt'),
                                               (5, True, 'racah'), ('solid', False, 3), ('solid', True, 2))])
def _(r, n, v):
  x = normal(r, n, 3)
  if v[0] == 'solid':
    return lambda x: S.solid_harmonics(x, v[2], cartesian_order=v[1]), [x]
  if not X64:
    x = scaled(x, r)
    x[np.all(x == 0, -1)] = (0, 0, 1e-3)
  return lambda x: S.spherical_harmonics(x, v[0], normalization=v[2], cartesian_order=v[1]), [x]


@op('rotations', ['rotation', 'alignment_rotation', 'rotation_euler', 'euler_angles_from_rotation'], gtol=3000)
def _(r, n, v):
  f = getattr(S, v)
  if v == 'rotation':
    return f, [normal(r, n, 3), r.uniform(-5, 5, size=n)]
  if v == 'alignment_rotation':
    return f, [normal(r, n, 3), normal(r, n, 3)]
  if v == 'rotation_euler':
    return f, [r.uniform(-3, 3, size=n) for _ in range(3)]
  return f, [np.array([np.asarray(S.rotation_euler(*r.uniform(-1.2, 1.2, size=3)), np.float64) for _ in range(n)])]


@op('wigner', [(0, True), (1, False), (2, True), (3, False)], gtol=3000)
def _(r, n, v):
  R = np.array([np.asarray(S.rotation_euler(*r.uniform(-1.2, 1.2, size=3)), np.float64) for _ in range(n)])
  return lambda x: S.wigner_d(x, v[0], cartesian_order=v[1]), [R]


@op('random_rotation', [(1.,), (.3,)], diff=False, batch=False)
def _(r, n, v):
  return lambda k: S.random_rotation(k, perturbation=v[0]), [r.integers(0, 2 ** 31, size=(n, 2)).astype(np.uint32)]


@op('tensors', [(d, w) for d in (0, 1, 2, 3) for w in (0, 1)])
def _(r, n, v):
  d = v[0]
  if v[1]:
    return lambda x: S.irreps_to_tensor(x, d), [normal(r, n, 2 * d + 1)]
  e = normal(r, n, 2 * d + 1)
  return lambda x: S.tensor_to_irreps(x, d), [np.asarray(S.irreps_to_tensor(jnp.asarray(e), d), np.float64)]


@op('basis', [(L, fam, cut, ret) for L, fam, cut, ret in (
    (0, 'bernstein', True, False), (1, 'chebyshev', False, True), (2, 'fourier', True, True), (1, 'gaussian', True, False),
    (3, 'bernstein', False, False), (0, 'exp', True, True), (2, 'exp', False, False))], tol=60, gtol=2000)
def _(r, n, v):
  L, fam, cut, ret = v
  kw = dict(max_degree=L, num=3, return_norm=ret)
  if cut:
    kw.update(cutoff_fn=functools.partial(N.smooth_cutoff, cutoff=3.), return_cutoff=ret)
  x = normal(r, n, 3)
  if not X64:
    x[r.integers(n)] = 0
  if fam == 'exp':
    kw['radial_fn'] = N.exponential_bernstein
    mod = N.ExponentialBasis()
    p = cm.init_params(mod, r, jnp.asarray(x[0]), **kw)
    return lambda x: mod.apply(p, x, **kw), [x]
  kw['radial_fn'] = getattr(N, 'reciprocal_' + fam)
  return lambda x: N.basis(x, **kw), [x]


# ---- features ----------------------------------------------------------------------
@op('activation', [(a, t) for a in ACTS for t in ((1, 0), (2, 1), (1, 2))], tol=60, gtol=1000)
def _(r, n, v):
  x = feat(r, n, v[1][0], v[1][1], 3) * 2
  if not X64:
    x[r.integers(n)] *= 20
  return getattr(N, v[0]), [x]


@op('features', [(o, t, u) for o in ('add', 'change', 'rotate', 'reflect') for t in ((1, 1), (2, 2), (2, 0))
                 for u in ((1, 0), (2, 1), (2, 3))])
def _(r, n, v):
  o, t, u = v
  x = feat(r, n, *t, 2)
  if o == 'add':
    return N.add, [x, feat(r, n, *u, 2)]
  if o == 'reflect':
    return N.reflect, [x]
  if o == 'change':
    return lambda x: N.change_max_degree_or_type(x, max_degree=u[1], include_pseudotensors=u[0] == 2), [x]
  R = rots(r, n)
  D = np.asarray(S.wigner_d(jnp.asarray(R), t[1]), np.float64)
  return N.rotate, [x, D]


@op('dense', [((P, L), b, f) for (P, L) in ((1, 0), (2, 1), (1, 2)) for b in (True, False) for f in (2, 5)])
def _(r, n, v):
  (P, L), b, f = v
  x = [feat(r, n, P, L, 3)]
  return apply(N.Dense(f, use_bias=b), x, r), x


@op('tensor', [(k, t, u, out) for k in ('Tensor', 'FusedTensor') for t, u, out in (
    ((1, 1), (1, 1), (2, True)), ((2, 1), (1, 2), (3, True)), ((1, 0), (2, 2), (None, False)), ((2, 2), (2, 2), (1, None)))], tol=60)
def _(r, n, v):
  k, t, u, (L, ps) = v
  x = [feat(r, n, *t, 2), feat(r, n, *u, 2)]
  kw = {} if ps is None else {'include_pseudotensors': ps}
  return apply(getattr(N, k)(max_degree=L, **kw), x, r), x


@op('tensordense', [(f, t) for f in (True, False) for t in ((1, 0), (2, 1), (1, 2))], tol=60)
def _(r, n, v):
  x = [feat(r, n, *v[1], 3)]
  return apply(N.TensorDense(4, max_degree=v[1][1], use_fused_tensor=v[0]), x, r), x


@op('embed', [(5, 3), (2, 1)], diff=False)
def _(r, n, v):
  x = [r.integers(0, v[0], size=(n,))]
  return apply(N.Embed(*v), x, r), x


@op('square', [((0,), 0, False), ((1,), 2, True), ((0, 1), 2, False), ((1, 2), 3, True)], batch=False)
def _(r, n, v):
  ds, L, shift = v
  m = M.matmat.make_dict_irreps_mult(list(ds), L)
  ls = sorted(m)
  x = [normal(r, n, 2 * l + 1, m[l]) for l in ls]
  return lambda *x: M.make_square_matrix(list(x), list(ds), 1, L, shift, None), x


# ---- graphs ------------------------------------------------------------------------
NODES, NB = 4, 3


def graph(r, n, dense):
  """Every element of the batch has its own list (with gaps and unused slots)."""
  if dense:
    return dict(adj_idx=r.integers(0, NODES, size=(n, NODES, NB)), where=r.random((n, NODES, NB)) < .7)
  d = r.integers(0, NODES, size=(n, 9))
  d[:, -2:] = NODES
  return dict(dst_idx=d, src_idx=np.where(d == NODES, 0, r.integers(0, NODES, size=(n, 9))))


def edges(dense):
  return (NODES, NB) if dense else (9,)


def with_graph(f, g, dense):
  """f(*features, **lists) as a function of positional arrays only."""
  ks = sorted(g)
  extra = {} if dense else {'num_segments': NODES}

  def h(*a):
    return f(*a[:len(a) - len(ks)], **dict(zip(ks, a[len(a) - len(ks):])), **extra)
  return h, [g[k] for k in ks]


@op('gather', [(w, d) for w in ('src', 'dst') for d in (True, False)])
def _(r, n, v):
  w, d = v
  g = graph(r, n, d)
  if not d:
    g = {k: np.minimum(a, NODES - 1) for k, a in g.items()}
  h, extra = with_graph(lambda x, **k: getattr(O, 'gather_' + w)(x, **k), g, d)
  return h, [normal(r, n, NODES, 2)] + extra


@op('reduce', [(w, d) for w in ('sum', 'max', 'min', 'softmax') for d in (True, False)])
def _(r, n, v):
  w, d = v
  g = graph(r, n, d)
  keep = w == 'softmax'
  def f(x, **k):
    y = getattr(O, 'indexed_' + w)(x, **k)
    if not keep:
      return y
    valid = k['where'] if d else k['dst_idx'] < NODES
    return jnp.where(valid[..., None], y, 0)
  h, extra = with_graph(f, g, d)
  x = normal(r, n, *edges(d), 2)
  if not X64 and not keep and w == 'sum':
    x = scaled(x, r)
  return h, [x] + extra


@op('message', [(d, t, fused) for d in (True, False) for t in ((1, 0), (2, 1), (1, 2)) for fused in (True, False)], tol=60)
def _(r, n, v):
  d, t, fused = v
  g = graph(r, n, d)
  mod = N.MessagePass(max_degree=t[1], use_fused_tensor=fused)
  return layer(mod, [feat(r, n, *t, 2, (NODES,)), feat(r, n, 1, 1, 3, edges(d))], g, d, r)


@op('attention', [(k, d, t, h, pos) for k in ('SelfAttention', 'MultiHeadAttention') for d in (True, False)
                  for t, h, pos in (((1, 0), 1, False), ((2, 1), 2, True), ((1, 1), 2, False))], tol=100, gtol=1000)
def _(r, n, v):
  k, d, t, heads, pos = v
  g = graph(r, n, d)
  mod = getattr(N, k)(num_heads=heads, max_degree=t[1], use_relative_positional_encoding_qk=pos,
                      use_relative_positional_encoding_v=True)
  x = [feat(r, n, *t, 4, (NODES,))]
  if k == 'MultiHeadAttention':
    x.append(feat(r, n, *t, 4, (NODES,)))
  x.append(feat(r, n, 1, 1, 3, edges(d)))
  if pos:
    x.append(r.uniform(.2, 1, size=(n,) + edges(d)))
  return layer(mod, x, g, d, r)


def layer(mod, x, g, d, r):
  kw = {k: jnp.asarray(a[0]) for k, a in g.items()}
  kw.update({} if d else {'num_segments': NODES})
  p = cm.init_params(mod, r, *[jnp.asarray(a[0]) for a in x], **kw)
  h, extra = with_graph(lambda *a, **k: mod.apply(p, *a, **k), g, d)
  return h, x + extra


# ---- running programs --------------------------------------------------------------
def build(c, n):
  o = OPS[c['fn']]
  r = np.random.default_rng([cm.SEED, zlib.crc32(c['fn'].encode()), c['variant']])
  f, args = o['make'](r, n, o['variants'][c['variant'] % len(o['variants'])])
  args = [a.astype(dtype()) if np.issubdtype(a.dtype, np.floating) else a for a in args]
  return o, lambda *a: tuple(jax.tree_util.tree_leaves(f(*a))), args, r


def weights(f, args, r):
  ys = jax.eval_shape(f, *[jnp.asarray(a[0]) for a in args])
  return [jnp.asarray(r.uniform(.5, 1.5, size=y.shape) * r.choice([-1, 1], size=y.shape), y.dtype) for y in ys]


def gradient(f, args, w):
  """The gradient of the weighted sum of all outputs; sums over the batch do not mix elements."""
  which = [i for i, a in enumerate(args) if np.issubdtype(a.dtype, np.floating)]

  def g(*a):
    def total(*d):
      b = list(a)
      for i, x in zip(which, d):
        b[i] = x
      return sum(jnp.sum(y * v) for y, v in zip(f(*b), w))
    return tuple(jax.grad(total, argnums=tuple(range(len(which))))(*[a[i] for i in which]))
  return g


def interpret(prog, f, rank, other):
  """The function which evaluates f under the transformations of prog."""
  if not prog:
    return f
  (t, ax), rest = prog[0], prog[1:]
  sub = lambda k: interpret(rest, f, rank - k, other)
  if t == 'jit':
    return jax.jit(sub(0))
  if t == 'remat':
    return jax.checkpoint(sub(0))
  if t == 'vmap':
    return jax.vmap(sub(1), in_axes=ax - 1, out_axes=ax - 1)
  if t == 'loop':
    g = sub(1)
    def loop(*a):
      ys = [g(*[x[k] for x in a]) for k in range(a[0].shape[0])]
      return tuple(jnp.stack(y) for y in zip(*ys))
    return loop
  if t == 'lmap':
    g = sub(1)
    return lambda *a: jax.lax.map(lambda x: g(*x), tuple(a))
  if t == 'swap':
    g = sub(0)
    sw = lambda xs: tuple(jnp.swapaxes(x, 0, 1) for x in xs)
    return lambda *a: sw(g(*sw(a)))
  if t == 'flat':
    g = sub(1)
    return lambda *a: tuple(y.reshape(a[0].shape[:2] + y.shape[1:]) for y in g(*[x.reshape((-1,) + x.shape[2:]) for x in a]))
  if t == 'back':
    g = sub(0)
    return lambda *a: tuple(y[::-1] for y in g(*[x[::-1] for x in a]))
  if t == 'pad':
    g = sub(0)
    def pad(*a):
      z = [jnp.concatenate([x, jnp.broadcast_to(o, (1,) + x.shape[1:]).astype(x.dtype)]) for x, o in zip(a, other)]
      return tuple(y[:-1] for y in g(*z))
    return pad
  raise ValueError(t)


def code(y, s):
  """Integers: millionths of s; infinities and NaN have their own codes."""
  y = np.asarray(y, np.float64)
  q = np.clip(np.where(np.isfinite(y), np.round(y / s * U), 0), -1.5e9, 1.5e9)
  q = np.where(np.isposinf(y), 2e9, np.where(np.isneginf(y), -2e9, np.where(np.isnan(y), 1.9e9, q)))
  return q.astype(np.int64)


def helpers(c):
  """evaluate_derivatives on powers (exact integers) and inverse_softplus."""
  ev = []
  if c['helper'] == 'taylor':
    p, x = c['p'], c['x']
    e = dict(op='taylor', p=p, x=x, n=c['n'], exc='', key=str(c))
    try:
      f = lambda z: z ** p
      g = lambda z: O.evaluate_derivatives(f, z, c['n'])
      y = (jax.jit(g) if c['jit'] else g)(jnp.asarray(x, jnp.float32))
      e['out'] = [np.round(np.asarray(a, np.float64)).astype(int).tolist() for a in y]
      e['integral'] = all(np.all(np.asarray(a) == np.round(a)) for a in y)
    except Exception as ex:  # pylint: disable=broad-except
      e['exc'] = type(ex).__name__
    return [e]
  x = np.float32([2.0 ** k for k in c['ks']])
  y = np.asarray(O.inverse_softplus(jnp.asarray(x)), np.float64)
  xx = np.float64(x)
  want = np.where(xx > 30, xx, np.log(np.expm1(np.minimum(xx, 30))))
  e = dict(op='softplus', ks=c['ks'], key=str(c), exc='', finite=bool(np.isfinite(y).all()),
           dev=code(np.abs(y - want) / np.maximum(1, np.abs(want)), 1).tolist(), y=code(y, 1).tolist(), x=[int(a * 1000) for a in xx],
           back=code(np.logaddexp(0, y) / xx, 1).tolist())
  return [e]


def run(c):
  if 'helper' in c:
    return helpers(c)
  return programs(c)


def programs(c):
  """One function: programs c['progs'] = [[dim, prog], ...] in the modes value and gradient."""
  out = []
  name = OPS[c['fn']]['variants'][c['variant'] % len(OPS[c['fn']]['variants'])]
  key0 = f"{c['fn']} {name}"
  if c.get('fd'):
    return derivatives(c, key0)
  n = 7
  o, f, args, r = build(c, n)
  w = weights(f, args, r) if o['diff'] and c['grad'] else None
  for mode in ('value', 'grad'):
    if mode == 'grad' and w is None:
      continue
    g = f if mode == 'value' else gradient(f, args, w)
    # quick: derivatives are compiled, and so are all programs but the first
    one = jax.jit(g) if c['fast'] and mode == 'grad' else g
    ref = [[np.asarray(y, np.float64) for y in one(*[jnp.asarray(a[k]) for a in args])] for k in range(n - 1)]
    tol = o['tol'] if mode == 'value' else o['gtol']
    for i, (dim, prog) in enumerate(c['progs'] if mode == 'value' else c['progs'][:c['grad']]):
      m = int(np.prod(dim)) if dim else 1
      e = dict(op='program', fn=c['fn'], key=f'{key0} {mode} {dim} {prog}', exc='', mode=mode, dim=dim, prog=prog, tol=tol,
               ref=[], out=[], shape=[], core=[])
      try:
        h = interpret(prog, g, len(dim), [a[n - 1] for a in args])
        if c['fast'] and (mode == 'grad' or i):
          h = jax.jit(h)
        ys = h(*[jnp.asarray(a[:m].reshape(tuple(dim) + a.shape[1:])) for a in args])
        for j, y in enumerate(ys):
          y = np.asarray(y, np.float64)
          e['shape'].append(list(y.shape))
          e['core'].append(list(ref[0][j].shape))
          if list(y.shape) != list(dim) + e['core'][-1]:
            continue
          flat = y.reshape((m, -1))
          for k in range(m):
            a = ref[k][j].reshape(-1)
            if a.size == 0:
              continue
            fin = np.abs(a[np.isfinite(a)])
            s = fin.max() if fin.size and fin.max() > 0 else 1.0
            if mode == 'grad':      # derivatives that vanish but for rounding
              s = max(s, 1e-2 * max(np.abs(b[np.isfinite(b)]).max(initial=0) for b in ref[k]))
            p, q = code(a, s), code(flat[k], s)
            pick = set(np.argsort(-np.abs(p - q))[:4]) | set(r.choice(a.size, size=min(4, a.size), replace=False))
            pick = sorted(int(i) for i in pick)
            e['ref'].append(p[pick].tolist())
            e['out'].append(q[pick].tolist())
      except Exception as ex:  # pylint: disable=broad-except
        e['exc'], e['msg'] = type(ex).__name__, str(ex)[:200]
      out.append(e)
  return out


# ---- derivatives -------------------------------------------------------------------
def derivatives(c, key0):
  """First and second derivatives against central differences (double precision)."""
  n = c['elements']
  o, f, args, r = build(c, n)
  w = weights(f, args, r)
  which = [i for i, a in enumerate(args) if np.issubdtype(a.dtype, np.floating)]
  out = []
  for k in range(n):
    full = [jnp.asarray(a[k]) for a in args]
    xs = tuple(full[i] for i in which)
    vs = tuple(jnp.asarray(r.normal(size=x.shape), x.dtype) for x in xs)

    def fx(*d):
      b = list(full)  # pylint: disable=cell-var-from-loop
      for i, x in zip(which, d):
        b[i] = x
      return f(*b)

    def scalar(*d):
      return sum(jnp.sum(y * v) for y, v in zip(fx(*d), w))  # pylint: disable=cell-var-from-loop
    fx = jax.jit(fx)
    ga = jax.jit(jax.grad(scalar, argnums=tuple(range(len(xs)))))

    def inner(gs, us):
      return sum(jnp.vdot(a, b) for a, b in zip(gs, us))
    e = dict(op='derivative', fn=c['fn'], key=f'{key0} element {k}', exc='', tol=o['fd'], d1=[], d2=[])
    try:
      # directional derivatives of every output
      line = lambda t: fx(*[x + t * v for x, v in zip(xs, vs)])
      gline = lambda t: ga(*[x + t * v for x, v in zip(xs, vs)])
      fwd = jax.jit(lambda a, b: jax.jvp(fx, a, b)[1])(xs, vs)
      h = c['h']
      cd = lambda g, h: [(np.asarray(a, np.float64) - np.asarray(b, np.float64)) / (2 * h) for a, b in zip(g(h), g(-h))]
      e['d1'] = compare(fwd, cd(line, h), cd(line, h / 2), r)
      g = ga(*xs)
      rev, dot = float(inner(g, vs)), float(sum(jnp.vdot(y, v) for y, v in zip(fwd, w)))
      s = max(abs(dot), sum(float(jnp.sum(jnp.abs(y * v))) for y, v in zip(fwd, w)) * .1, 1e-6)
      e['dual'] = code([rev, dot], s).tolist()
      if c['second']:
        us = tuple(jnp.asarray(r.normal(size=x.shape), x.dtype) for x in xs)
        hv = jax.jit(lambda a, b: jax.jvp(ga, a, b)[1])(xs, vs)                 # forward over reverse
        e['d2'] = compare(hv, cd(gline, h), cd(gline, h / 2), r)
        hu = jax.jit(jax.grad(lambda *d: inner(ga(*d), us), argnums=tuple(range(len(xs)))))(*xs)  # reverse over reverse
        a, b = float(inner(hv, us)), float(inner(hu, vs))
        s = max(abs(b), sum(float(jnp.sum(jnp.abs(p * q))) for p, q in zip(hv, us)) * .1, 1e-3)
        e['dual2'] = code([a, b], s).tolist()
      else:
        e['dual2'] = [0, 0]
    except Exception as ex:  # pylint: disable=broad-except
      e['exc'], e['msg'] = type(ex).__name__, str(ex)[:200]
    out.append(e)
  return out


def compare(ad, fd1, fd2, r):
  """[derivative, difference with h, difference with h/2] for the worst and some other entries."""
  res = []
  for a, b, d in zip(ad, fd1, fd2):
    a, b, d = (np.asarray(x, np.float64).reshape(-1) for x in (a, b, d))
    if a.size == 0:
      continue
    fin = np.abs(b[np.isfinite(b)])
    s = max(fin.max() if fin.size else 0, 1e-3)
    p, q, t = code(a, s), code(b, s), code(d, s)
    pick = set(np.argsort(-np.abs(p - t))[:3]) | set(r.choice(a.size, size=min(3, a.size), replace=False))
    res += [[int(p[i]), int(q[i]), int(t[i])] for i in sorted(pick)]
  return res

