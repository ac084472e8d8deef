"""Constructors of rotation matrices."""
import math

import jax
import jax.numpy as jnp
import numpy as np

import e3x
from drivers import common as cm

U = 10000
fx = lambda a: np.rint(np.clip(np.nan_to_num(np.asarray(a, np.float64), nan=9), -9, 9) * U).astype(int).tolist()


def setup(shared):
  pass


def run(c):
  try:
    return globals()['run_' + c['op']](c)
  except Exception as ex:  # pylint: disable=broad-except
    return [{'op': c['op'], 'exc': type(ex).__name__, 'msg': str(ex)[:300],
             'key': f"{c['op']} {c.get('batch')} {c.get('p')} {c.get('num')}"}]


def qmat(q):
  a, b, c, d = np.asarray(q, np.float64) / np.linalg.norm(q)
  return np.array([[a*a+b*b-c*c-d*d, 2*(b*c+a*d), 2*(b*d-a*c)],
                   [2*(b*c-a*d), a*a+c*c-b*b-d*d, 2*(c*d+a*b)],
                   [2*(b*d+a*c), 2*(c*d-a*b), a*a+d*d-b*b-c*c]])


def qthen(p, q):
  a, b, c, d = q
  return (a*p[0]-b*p[1]-c*p[2]-d*p[3], a*p[1]+b*p[0]+c*p[3]-d*p[2],
          a*p[2]-b*p[3]+c*p[0]+d*p[1], a*p[3]+b*p[2]-c*p[1]+d*p[0])


def orth(R):
  R = np.asarray(R, np.float64)
  d = np.max(np.abs(R @ np.swapaxes(R, -1, -2) - np.eye(3)))
  d = max(d, np.max(np.abs(np.linalg.det(R) - 1)))
  return int(min(d * 1e6, 2e9)) if np.isfinite(d) else 2000000000


def layout(n, batch):
  """Batch shape with n elements."""
  if batch == 'flat' or n % 2:
    return (n,)
  return (2, n // 2) if batch == 'grid' else (1, n // 2, 2)


def common(fn, args, items, batch, diff=None):
  """Calls fn on stacked args; one event per item (with the fields of `items`)."""
  n = len(items)
  shape = layout(n, batch)
  arrs = [jnp.asarray(np.asarray(a, np.float32).reshape(*shape, *np.shape(a)[1:])) for a in args]
  out = fn(*arrs)
  ok = np.shape(out) == (*shape, 3, 3)
  evs = []
  R = np.asarray(out, np.float64).reshape(n, 3, 3) if ok else None
  if ok:
    single = np.asarray(jnp.stack([fn(*[a.reshape(n, *a.shape[len(shape):])[i] for a in arrs])
                                   for i in range(n)]), np.float64)
    g = jax.grad(lambda *xs: jnp.sum(fn(*xs) * jnp.arange(1., 10.).reshape(3, 3)),
                 argnums=tuple(range(len(arrs))))(*arrs)
    fin = [all(bool(np.all(np.isfinite(np.asarray(x).reshape(n, -1)[i]))) for x in g) for i in range(n)]
  for i, it in enumerate(items):
    ev = dict(it, exc='', shapeok=ok, key=it['op'] + ' ' + ' '.join(f'{k}={v}' for k, v in it.items() if k != 'op'))
    if ok:
      ev.update(R=fx(R[i]), orthppm=orth(R[i]), batchppm=cm.ppm(R[i], single[i], 1.0), gradok=fin[i])
    evs.append(ev)
  return evs, R


def run_rot(c):
  ax, an, want, tol = [], [], [], []
  for it in c['items']:
    q = np.array(it['q'], np.float64)
    s = np.linalg.norm(q[1:])
    sg = -1 if it['neg'] else 1
    ax.append(sg * q[1:] * 10.0 ** it['scale'])
    a = sg * 2 * math.atan2(s, q[0]) + 2 * math.pi * it['turns']
    an.append(a)
    want.append(qmat(q))
    it['tol'] = int(10 + 0.5 * abs(a))
    it['op'] = 'rot'
  evs, R = common(e3x.so3.rotation, [np.array(ax), np.array(an)], c['items'], c['batch'])
  for i, ev in enumerate(evs):
    if ev['shapeok']:
      ev['ppm'] = cm.ppm(R[i], want[i], 1.0)
  return evs


def back(angles):
  return np.asarray(e3x.so3.rotation_euler(*angles), np.float64)


def run_euler(c):
  ang, want = [], []
  for it in c['items']:
    hx, hy, hz = it['h']
    ang.append([2 * math.atan2(h[1], h[0]) + 2 * math.pi * t for h, t in zip(it['h'], it['turns'])])
    q = qthen(qthen((hx[0], hx[1], 0, 0), (hy[0], 0, hy[1], 0)), (hz[0], 0, 0, hz[1]))
    want.append(qmat(q))
    it['tol'] = int(10 + 0.5 * max(map(abs, ang[-1])))
    it['op'] = 'euler'
    it['lock'] = abs(abs(want[-1][0, 2]) - 1) < 1e-3
  ang = np.array(ang)
  evs, R = common(e3x.so3.rotation_euler, list(ang.T), c['items'], c['batch'])
  if evs[0]['shapeok']:
    a = e3x.so3.euler_angles_from_rotation(jnp.asarray(R, jnp.float32))
    B = back(a)
  for i, ev in enumerate(evs):
    if ev['shapeok']:
      ev['ppm'] = cm.ppm(R[i], want[i], 1.0)
      ev['back'] = fx(B[i])
      ev['finite'] = bool(np.all(np.isfinite([x[i] for x in a])))
  return evs


def run_extract(c):
  items = c['items']
  n = len(items)
  shape = layout(n, c['batch'])
  R = np.stack([qmat(it['q']) for it in items]).astype(np.float32)
  a = e3x.so3.euler_angles_from_rotation(jnp.asarray(R.reshape(*shape, 3, 3)))
  ok = len(a) == 3 and all(np.shape(x) == shape for x in a)
  evs = []
  if ok:
    flat = [jnp.asarray(x).reshape(n) for x in a]
    B = back(flat)
    single = [e3x.so3.euler_angles_from_rotation(jnp.asarray(R[i])) for i in range(n)]
    S = np.stack([back(s) for s in single])
  for i, it in enumerate(items):
    ev = dict(it, op='extract', exc='', shapeok=ok, key=f"extract q={it['q']} batch={c['batch']}",
              lock=bool(abs(abs(R[i, 0, 2]) - 1) < 1e-3))
    if ok:
      ev['back'] = fx(B[i])
      ev['finite'] = cm.finite(*[x[i] for x in flat])
      ev['batchppm'] = cm.ppm(B[i], S[i], 1.0)
      ev['ppm'] = cm.ppm(B[i], qmat(it['q']), 1.0)
    evs.append(ev)
  return evs


def euler64(a, b, c):
  ca, sa, cb, sb, cc, sc = math.cos(a), math.sin(a), math.cos(b), math.sin(b), math.cos(c), math.sin(c)
  X = np.array([[1, 0, 0], [0, ca, sa], [0, -sa, ca]])
  Y = np.array([[cb, 0, -sb], [0, 1, 0], [sb, 0, cb]])
  Z = np.array([[cc, sc, 0], [-sc, cc, 0], [0, 0, 1]])
  return X @ Y @ Z


def run_near(c):
  """Rotations a little away from gimbal lock (middle angle +-90 degrees -+ delta)."""
  items = c['items']
  n = len(items)
  shape = layout(n, c['batch'])
  Rs = []
  for it in items:
    a, b, g = [2 * math.atan2(h[1], h[0]) for h in it['h']]
    Rs.append(euler64(a, b - it['d'] * 1e-6, g))
  R = np.stack(Rs).astype(np.float32)
  a = e3x.so3.euler_angles_from_rotation(jnp.asarray(R.reshape(*shape, 3, 3)))
  ok = len(a) == 3 and all(np.shape(x) == shape for x in a)
  evs = []
  if ok:
    B = back([jnp.asarray(x).reshape(n) for x in a])
  for i, it in enumerate(items):
    ev = dict(it, op='near', exc='', shapeok=ok, key=f"near h={it['h']} d={it['d']} batch={c['batch']}")
    if ok:
      ev.update(R=fx(R[i]), back=fx(B[i]), ppm=cm.ppm(B[i], R[i].astype(np.float64), 1.0),
                finite=cm.finite(*[np.asarray(x).reshape(n)[i] for x in a]))
    evs.append(ev)
  return evs


def run_align(c):
  us, vs, tr = [], [], []
  for it in c['items']:
    u, v = (np.array(it[k], np.float64) for k in 'uv')
    if it['pert']:
      # almost parallel or antiparallel: tilt by 10^pert
      w = np.cross(v, [.3, -.5, .81])
      v = v / np.linalg.norm(v) + w / np.linalg.norm(w) * 10.0 ** it['pert']
    us.append(u * 10.0 ** it['su'])
    vs.append(v * 10.0 ** it['sv'])
    it['op'] = 'align'
  us, vs = np.array(us).astype(np.float32), np.array(vs).astype(np.float32)
  evs, R = common(e3x.so3.alignment_rotation, [us, vs], c['items'], c['batch'])
  for i, ev in enumerate(evs):
    if ev['shapeok']:
      u, v = us[i].astype(np.float64), vs[i].astype(np.float64)
      u, v = u / np.linalg.norm(u), v / np.linalg.norm(v)
      ev['alignppm'] = cm.ppm(u @ R[i], v, 1.0)
      ev['trace'] = int(round((1 + 2 * float(u @ v)) * U))
  return evs


def run_rand(c):
  key = jax.random.PRNGKey(c['seed'])
  p, num = c['p'] / 1000, c['num']
  kw = {}
  if c['p'] != 1000 or c['seed'] % 2:
    kw['perturbation'] = p if c['seed'] % 3 else jnp.asarray(p)
  if num != 1 or c['seed'] % 2:
    kw['num'] = num
  R = np.asarray(e3x.so3.random_rotation(key, **kw), np.float64)
  ev = dict(c, exc='', key=f"rand p={p} num={num} seed={c['seed']}",
            shapeok=R.shape == ((3, 3) if num == 1 else (num, 3, 3)))
  if not ev['shapeok']:
    return [ev]
  R = R.reshape(-1, 3, 3)
  pc = min(max(p, 0.0), 1.0)
  ev['mintrace'] = int(round((1 + 2 * math.cos(pc * math.pi)) * U))
  ev['bound'] = bool(np.all(np.trace(R, axis1=1, axis2=2) >= 1 + 2 * math.cos(pc * math.pi) - 1e-4))
  ev['orthppm'] = orth(R)
  ev['Rs'] = fx(R[:5])
  ev['same'] = bool(np.array_equal(R, np.asarray(e3x.so3.random_rotation(key, **kw), np.float64).reshape(-1, 3, 3)))
  other = np.asarray(e3x.so3.random_rotation(jax.random.PRNGKey(c['seed'] + 1), **kw), np.float64).reshape(-1, 3, 3)
  dif = np.max(np.abs(R[0] - other[0])) > 1e-5 * max(pc, 1e-3)
  if num > 1:
    dif = dif and np.max(np.abs(R[0] - R[1])) > 1e-5 * max(pc, 1e-3)
  ev['differ'] = bool(dif)
  ev['clamped'] = True
  if p <= 0 or p >= 1:
    ref = e3x.so3.random_rotation(key, perturbation=pc, num=num)
    ev['clamped'] = cm.ppm(R, np.asarray(ref).reshape(-1, 3, 3), 1.0) <= 1
  # moments of the uniform distribution: E[R_ij] = 0, E[R_ij R_kl] = d_ik d_jl / 3
  ev['mean'], ev['sig6'] = [], 0
  if p >= 1 and num >= 4000:
    m1 = R.mean(0).ravel()
    f = R.reshape(-1, 9)
    m2 = (f.T @ f / len(f) - np.eye(9) / 3).ravel()
    ev['mean'] = [int(round(x * U)) for x in (*m1, *m2)]
    ev['sig6'] = int(6 * U * 0.6 / math.sqrt(len(R))) + 2
  # weaker perturbations: no preferred axis, and angles up to the bound occur
  ev['iso'], ev['reach'] = [], True
  if 0 < p < 1 and num >= 4000:
    m = R.mean(0)
    ev['iso'] = [int(round(x * U)) for x in (m - np.eye(3) * np.trace(m) / 3).ravel()]
    ev['sig6'] = int(6 * U * 0.8 * min(1, 2 * p) / math.sqrt(len(R))) + 2
    ang = np.arccos(np.clip((np.trace(R, axis1=1, axis2=2) - 1) / 2, -1, 1))
    ev['reach'] = bool(ang.max() >= .9 * p * math.pi - 1e-3)
  return [ev]
