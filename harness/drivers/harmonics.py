"""so3.spherical_harmonics, solid_harmonics, wigner_d, clebsch_gordan, tensors."""
import itertools
import math

import jax
import jax.numpy as jnp
import numpy as np

import e3x
import harmonics as H
import irreps
from drivers import common as cm

U = 10000
fx = lambda a: np.rint(np.clip(np.nan_to_num(np.asarray(a, np.float64), nan=9), -20, 20) * U).astype(int).tolist()


def setup(shared):
  cm.use_tables(shared)


def run(c):
  ev = {k: v for k, v in c.items()}
  ev['exc'] = ''
  ev['key'] = ' '.join(f'{k}={v}' for k, v in sorted(c.items()) if k not in ('vs',))[:300]
  try:
    globals()['run_' + c['op']](c, ev)
  except Exception as ex:  # pylint: disable=broad-except
    ev['exc'], ev['msg'] = type(ex).__name__, str(ex)[:200]
  return [ev]


def dirs(vs):
  return np.array([[a / d['n'] for a in d['v']] for d in vs], np.float64)


def run_harm(c, ev):
  L, cart, norm = c['L'], c['cart'], c['norm']
  solid = c['fn'] == 'solid'
  u = dirs(c['vs'])
  s = 10.0 ** c['scale'] if not solid else 2.0 ** c['scale']
  n = len(u)
  shape = {'flat': (n,), 'grid': (2, n // 2) if n % 2 == 0 else (1, n), 'lead': (1, n, 1)}[c['batch']]
  r = jnp.asarray((u * s).reshape(*shape, 3), jnp.float32)
  kw = {'cartesian_order': cart}
  if solid:
    f = lambda x, L=L: e3x.so3.solid_harmonics(x, L, **kw)
    norm = 'racah'
    ev['norm'] = 'racah'
  else:
    kw['normalization'] = norm
    if c['rnorm']:
      kw['r_is_normalized'] = True
    f = lambda x, L=L: e3x.so3.spherical_harmonics(x, L, **kw)
  y = np.asarray(f(r), np.float64)
  ev['shapeok'] = y.shape == (*shape, (L + 1) ** 2)
  if not ev['shapeok']:
    return
  y = y.reshape(n, -1)
  if solid:
    y = y / s ** np.concatenate([[l] * (2 * l + 1) for l in range(L + 1)])
  ev['y'] = fx(y)
  want = H.spherical(u, L, cart, norm)
  ev['ppm'] = cm.ppm(y, want, 1.0)
  small = max(L - 1 - c.get('less', 0), 0)
  ys = np.asarray(f(r, small), np.float64).reshape(n, -1)
  yy = np.asarray(f(r), np.float64).reshape(n, -1)
  ev['prefixppm'] = cm.ppm(ys, yy[:, :(small + 1) ** 2], 1e-3)
  ev['defppm'] = 0
  if cart and norm == 'racah':
    k2 = {'r_is_normalized': True} if c['rnorm'] and not solid else {}
    g = e3x.so3.solid_harmonics if solid else e3x.so3.spherical_harmonics
    ev['defppm'] = cm.ppm(np.asarray(g(r, L, **k2), np.float64).reshape(n, -1), yy, 1e-3)
  # zero, derivatives
  z = jnp.zeros(3, jnp.float32)
  ev['zero'] = fx(f(z))
  jac = jax.jacfwd(f)
  js = np.asarray(jax.vmap(jac)(r.reshape(-1, 3)), np.float64)
  jz = np.asarray(jac(z), np.float64)
  jr = np.asarray(jax.jacrev(f)(z), np.float64)
  hz = np.asarray(jax.jacfwd(jac)(z), np.float64)
  h1 = np.asarray(jax.jacfwd(jac)(r.reshape(-1, 3)[0]), np.float64)
  ev['finite'] = cm.finite(y, js, jz, jr) and (not solid or cm.finite(hz, h1))
  ls = np.concatenate([[l] * (2 * l + 1) for l in range(L + 1)])
  rr = np.asarray(r, np.float64).reshape(-1, 3)
  e = np.einsum('nkd,nd->nk', js, rr)
  poly = solid or c['rnorm']
  want = yy * ls if poly else np.zeros_like(e)
  sc = np.maximum(1, s ** ls) * (1 + ls)
  ev['eulerppm'] = cm.ppm(e / sc, want / sc, 1.0)
  # Laplacian, and at zero: only degree 2 has second derivatives there
  ev['lapppm'] = 0
  if poly and L:
    hn = np.asarray(jax.vmap(jax.jacfwd(jac))(r.reshape(-1, 3)[:3]), np.float64)
    lap = np.trace(hn, axis1=-2, axis2=-1)
    sc = (ls * ls + 1) * np.maximum(1, s ** np.maximum(ls - 2, 0))
    ev['lapppm'] = cm.ppm(lap / sc, np.zeros_like(lap), 1.0)


def rotmat(c):
  if c['g'] > 0:
    return irreps.ROT[irreps.ELEMENTS[c['g'] - 1][0]]
  if c['kind'] == 'named':
    return irreps.ROT[c['name']]
  rng = np.random.default_rng(c['seed'])
  q = rng.normal(size=4)
  if c['kind'] == 'half':
    q[0] = 0
  if c['kind'] == 'tiny':
    q = np.array([1, 1e-4, -2e-4, 1e-4])
  a, b, cc, d = q / np.linalg.norm(q)
  return np.array([[a*a+b*b-cc*cc-d*d, 2*(b*cc-a*d), 2*(b*d+a*cc)],
                   [2*(b*cc+a*d), a*a-b*b+cc*cc-d*d, 2*(cc*d-a*b)],
                   [2*(b*d-a*cc), 2*(cc*d+a*b), a*a-b*b-cc*cc+d*d]])


def run_wig(c, ev):
  L, cart = c['L'], c['cart']
  R = rotmat(c)
  f = lambda R, L=L: e3x.so3.wigner_d(R, L, cartesian_order=cart)
  R32 = jnp.asarray(R, jnp.float32)
  D = np.asarray(f(R32), np.float64)
  n = (L + 1) ** 2
  ev['shapeok'] = D.shape == (n, n)
  if not ev['shapeok']:
    return
  ev['R'], ev['D'] = fx(R), fx(D)
  Q = rotmat({'g': 3})
  rest = [Q, R @ Q, np.eye(3), R.T]
  bat = jnp.asarray(np.stack([R] + rest), jnp.float32)
  Ds = np.asarray(f(bat), np.float64)
  ev['mulppm'] = max(cm.ppm(D @ Ds[1], Ds[2], 1.0), cm.ppm(Ds[3], np.eye(n), 1.0), cm.ppm(D.T, Ds[4], 1.0))
  D2 = np.asarray(f(bat[:4].reshape(2, 2, 3, 3)), np.float64)
  ev['batchppm'] = max(cm.ppm(Ds[0], D, 1.0), cm.ppm(D2.reshape(4, n, n), Ds[:4], 1.0))
  lo = max(L - 1, 0)
  m = (lo + 1) ** 2
  ev['prefixppm'] = cm.ppm(np.asarray(f(R32, lo), np.float64), D[:m, :m], 1.0)
  # The derivative along the group: d/dt D(exp(tA) R) at 0 must be D(A)D(R), where
  # D(A) is the derivative at the identity, obtained from exact harmonics.
  A = np.array([[0, -.3, .5], [.3, 0, -.7], [-.5, .7, 0]])
  _, t = jax.jvp(f, (R32,), (jnp.asarray(A @ R, jnp.float32),))
  pts = np.random.default_rng(3).normal(size=(6 * n, 3))
  Y = H.spherical(pts, L, cart, 'racah')
  eps = 1e-5
  ex = np.eye(3) + eps * A + eps ** 2 / 2 * A @ A
  em = np.eye(3) - eps * A + eps ** 2 / 2 * A @ A
  dY = (H.spherical(pts @ ex, L, cart, 'racah') - H.spherical(pts @ em, L, cart, 'racah')) / (2 * eps)
  gen = np.linalg.lstsq(Y, dY, rcond=None)[0]
  t = np.asarray(t, np.float64)
  ev['gradppm'] = cm.ppm(t, gen @ D, 1.0)
  g = np.asarray(jax.grad(lambda R: jnp.sum(f(R) ** 2))(R32))
  if not cm.finite(t, g):
    ev['gradppm'] = 2000000000


def run_cg(c, ev):
  L1, L2, L3, cart = c['L1'], c['L2'], c['L3'], c['cart']
  cg = np.asarray(e3x.so3.clebsch_gordan(L1, L2, L3, cartesian_order=cart), np.float64)
  ev['shapeok'] = cg.shape == ((L1 + 1) ** 2, (L2 + 1) ** 2, (L3 + 1) ** 2)
  if not ev['shapeok']:
    return
  s = lambda l: slice(l * l, (l + 1) ** 2)
  tri = list(itertools.product(range(L1 + 1), range(L2 + 1), range(L3 + 1)))
  ev['blocks'] = [{'l': list(t), 'c': fx(cg[s(t[0]), s(t[1]), s(t[2])])} for t in tri
                  if t in c['take'] or list(t) in c['take']]
  worst = swap = deg = 0
  full = np.asarray(e3x.so3.clebsch_gordan(L2, L1, L3, cartesian_order=cart), np.float64)
  names = [g for g in irreps.ELEMENTS[:3]]
  for t in tri:
    a, b, d = t
    blk = cg[s(a), s(b), s(d)]
    if max(t) <= 4:
      for (g, _) in names:
        D1, D2, D3 = (irreps.wigner(g, l, cart) for l in t)
        worst = max(worst, cm.ppm(np.einsum('ip,jq,pqk->ijk', D1, D2, blk),
                                  np.einsum('ijr,rk->ijk', blk, D3), 1.0))
    swap = max(swap, cm.ppm((-1) ** (a + b + d) * np.transpose(full[s(b), s(a), s(d)], (1, 0, 2)), blk, 1.0))
    if list(t) in c['take']:
      deg = max(deg, cm.ppm(e3x.so3.clebsch_gordan_for_degrees(*t, cartesian_order=cart), blk, 1.0))
  ev['ppm'], ev['swapppm'], ev['degppm'] = worst, swap, deg
  M = min(max(L1, L2, L3) + 1, c['table'])
  big = np.asarray(e3x.so3.clebsch_gordan(M, M, M, cartesian_order=cart), np.float64)
  ev['prefixppm'] = cm.ppm(big[:cg.shape[0], :cg.shape[1], :cg.shape[2]], cg, 1.0)
  del ev['take']


def contract(t, v, l):
  """t (..., 3, ..., 3) with v, l times."""
  for _ in range(l):
    t = t @ v
  return t


def run_tens(c, ev):
  l, cart, norm = c['l'], c['cart'], c['norm']
  kw = dict(cartesian_order=cart, normalization=norm)
  to = lambda x: e3x.so3.irreps_to_tensor(x, l, **kw)
  back = lambda t: e3x.so3.tensor_to_irreps(t, l, **kw)
  n = 2 * l + 1
  tail = (3,) * l if l else (1,)
  rng = cm.rng_for(ev['key'])
  eye = to(jnp.eye(n, dtype=jnp.float32))
  x = rng.normal(size=(*c['batch'], n)).astype(np.float32)
  t = to(jnp.asarray(x))
  y = back(t)
  ev['shapeok'] = t.shape == (*c['batch'], *tail) and eye.shape == (n, *tail) and y.shape == x.shape
  if not ev['shapeok']:
    return
  E = np.asarray(eye, np.float64)
  if l == 0:
    E = E[..., 0]
  lead = math.factorial(l) / math.prod(range(1, 2 * l, 2))
  u = dirs(c['vs'])
  ev['contr'] = [fx(contract(E, v, l) / lead) for v in u]
  ax = list(range(1, l + 1))
  sym = tr = 0
  if l >= 2:
    for p in ([*ax[1:], ax[0]], [ax[1], ax[0], *ax[2:]]):
      sym = max(sym, cm.ppm(np.transpose(E, (0, *p)), E))
    T = np.trace(E, axis1=-2, axis2=-1)
    tr = cm.ppm(T, np.zeros_like(T), float(np.max(np.abs(E))))
  ev['symppm'], ev['trppm'] = sym, tr
  ev['rtppm'] = cm.ppm(y, x)
  # a traceless symmetric tensor from outside: combination of v^(x)l projected
  # through the exact harmonics
  w = rng.normal(size=(4, 3))
  w /= np.linalg.norm(w, axis=1, keepdims=True)
  Y = H.spherical(w, l, cart, norm)[:, l * l:]
  ts = np.asarray(to(jnp.asarray(Y, jnp.float32)), np.float64)
  ts2 = np.asarray(to(back(jnp.asarray(ts, jnp.float32))), np.float64)
  ev['trtppm'] = cm.ppm(ts, ts2)
  # rotating vectors r -> r R rotates every index of the tensor
  worst = 0
  for g, _ in irreps.ELEMENTS[:3]:
    R = irreps.ROT[g]
    a = np.asarray(t, np.float64).reshape(-1, *tail)
    for _ in range(l):   # transform each axis in turn
      a = np.moveaxis(a, 1, -1) @ R
    pts = np.random.default_rng(5).normal(size=(6 * n, 3))
    Dm = np.linalg.lstsq(H.spherical(pts, l, cart, 'racah')[:, l * l:],
                         H.spherical(pts @ R, l, cart, 'racah')[:, l * l:], rcond=None)[0]
    xr = (x.reshape(-1, n).astype(np.float64) @ Dm)
    worst = max(worst, cm.ppm(np.asarray(to(jnp.asarray(xr, jnp.float32))).reshape(-1, *tail), a),
                cm.ppm(np.asarray(back(jnp.asarray(a, jnp.float32))).reshape(-1, n), xr))
  ev['rotppm'] = worst
  flat = np.asarray(x, np.float64).reshape(-1, n)
  lin = np.tensordot(flat, np.asarray(eye, np.float64), (1, 0)).reshape(np.shape(t))
  ev['linppm'] = cm.ppm(t, lin)
  ok = bool(e3x.so3.is_traceless_symmetric(t, l))
  ev['isok'] = ok
  bad = True
  if l >= 2:
    a = np.asarray(t, np.float32).copy()
    a[(..., *([0] * (l - 1)), 1)] += 1
    b = np.asarray(t, np.float32).copy()
    b[(..., *([0] * l))] += 1         # symmetric, but with a trace
    b2 = np.asarray(t, np.float32).copy()
    b2[(*([-1] * len(c['batch'])), *([0] * (l - 2)), 1, 2)] += 1   # one entry of one element
    bad = not any(bool(e3x.so3.is_traceless_symmetric(jnp.asarray(v), l)) for v in (a, b, b2))
  ev['isnot'] = bad
