"""Replays schedules of spec/MCCache.tla on the disk caches of the lookup tables.

Every process of the schedule is a forked child (JAX is not initialised before
the fork).  An audit hook stops the child before each operation that opens a
file for writing or renames a file inside the scratch directory; the schedule
decides which process continues.  Crashes are SIGKILL at such a point, or
SIGXFSZ in the middle of a write (RLIMIT_FSIZE); a full disk is EFBIG.
"""
import os
import resource
import select
import shutil
import signal
import subprocess
import sys
import tempfile

import numpy as np

import e3x

SETTER = {'cg': 'set_clebsch_gordan_cache', 'wd': 'set_wigner_d_cache',
          'sh': 'set_spherical_harmonics_cache', 'tc': 'set_tensor_conversion_cache'}
CLI = {'cg': '_clebsch_gordan_lut', 'wd': '_wigner_d_lut',
       'sh': '_spherical_harmonics_lut', 'tc': '_tensor_conversion_lut'}
TIMEOUT = 150
_ref = {}


def result(table, degree):
  """Public results that use the whole table up to the degree, as one vector."""
  q = np.random.default_rng(3)
  if table == 'cg':
    return np.asarray(e3x.so3.clebsch_gordan(degree, degree, degree), np.float64).ravel()
  if table == 'wd':
    a, _ = np.linalg.qr(q.normal(size=(3, 3)))
    a *= np.linalg.det(a)
    return np.asarray(e3x.so3.wigner_d(np.float32(a), degree), np.float64).ravel()
  if table == 'sh':
    r = np.float32(q.normal(size=(4, 3)))
    return np.asarray(e3x.so3.spherical_harmonics(r, degree), np.float64).ravel()
  # (one lookup of the table per request)
  if degree % 2:
    x = np.float32(q.normal(size=(2, 2 * degree + 1)))
    return np.asarray(e3x.so3.irreps_to_tensor(x, degree=degree), np.float64).ravel()
  x = np.float32(q.normal(size=(2,) + ((3,) * degree or (1,))))
  return np.asarray(e3x.so3.tensor_to_irreps(x, degree=degree), np.float64).ravel()


class Child:
  """A process answering requests, stepped through its file operations."""

  def __init__(self, scratch, table, path):
    c_r, self.w = os.pipe()
    self.r, c_w = os.pipe()
    self.pid = os.fork()
    if self.pid == 0:
      try:
        os.close(self.w)
        os.close(self.r)
        self._main(c_r, c_w, scratch, table, path)
      except BaseException as ex:  # pylint: disable=broad-except
        try:
          os.write(c_w, f'E {type(ex).__name__} {ex}'.encode()[:200] + b'\n')
        except OSError:
          pass
      finally:
        os._exit(0)
    os.close(c_r)
    os.close(c_w)
    self.state = 'ready'      # ready (for a request), paused, dead

  def _main(self, c_r, c_w, scratch, table, path):
    sys.stdout = sys.stderr = open(os.devnull, 'w')
    active = [False]

    def pause(what):
      os.write(c_w, f'P {what}\n'.encode())
      while True:
        cmd = os.read(c_r, 1)
        if cmd == b'g':
          return
        if cmd in (b'f', b'k'):
          signal.signal(signal.SIGXFSZ, signal.SIG_IGN if cmd == b'f' else signal.SIG_DFL)
          resource.setrlimit(resource.RLIMIT_FSIZE, (100, resource.RLIM_INFINITY))
          return
        if not cmd:
          os._exit(0)

    def hook(event, args):
      if not active[0]:
        return
      if event == 'open':
        name = args[0]
        if isinstance(name, bytes):
          name = name.decode('utf8', 'replace')
        if not isinstance(name, (str, os.PathLike)):
          return
        name = os.fspath(name)
        if name.startswith(scratch):
          if isinstance(args[2], int) and args[2] & (os.O_WRONLY | os.O_RDWR | os.O_CREAT):
            active[0] = False
            pause('open')
            active[0] = True
        elif name.endswith('_lut.npz'):
          raise FileNotFoundError(2, 'table not shipped', name)
      elif event == 'os.rename' and str(args[1]).startswith(scratch):
        active[0] = False
        pause('rename')
        active[0] = True

    sys.addaudithook(hook)
    while True:
      req = b''
      while not req.endswith(b'\n'):
        b = os.read(c_r, 1)
        if not b:
          os._exit(0)
        req += b
      want, on, ref = req.decode().split()
      getattr(e3x.Config, SETTER[table])(path if on == '1' else None)
      active[0] = True
      y = result(table, int(want))
      active[0] = False
      resource.setrlimit(resource.RLIMIT_FSIZE, (resource.RLIM_INFINITY, resource.RLIM_INFINITY))
      if ref != '-':
        want_y = np.load(ref)
        ok = want_y.shape == y.shape and bool(np.allclose(want_y, y, rtol=1e-5, atol=1e-6))
        os.write(c_w, f'D {int(ok)}\n'.encode())
      else:
        np.save(os.path.join(os.path.dirname(path), 'out.npy'), y)
        os.write(c_w, b'D 1\n')

  def send(self, msg):
    try:
      os.write(self.w, msg)
    except BrokenPipeError:
      pass

  def wait(self):
    """Next message: ('paused'|'done'|'dead'|'error'|'hang', ok)."""
    line = b''
    while not line.endswith(b'\n'):
      if not select.select([self.r], [], [], TIMEOUT)[0]:
        self.kill()
        return 'hang', 0
      b = os.read(self.r, 1)
      if not b:
        self.reap()
        return 'dead', 0
      line += b
    k, rest = line[:1], line[2:].decode().strip()
    if k == b'P':
      self.state = 'paused'
      return 'paused', 0
    if k == b'D':
      self.state = 'ready'
      return 'done', int(rest)
    self.reap()
    return 'error:' + rest, 0

  def reap(self):
    if self.state != 'dead':
      self.state = 'dead'
      os.close(self.w)
      os.close(self.r)
      os.waitpid(self.pid, 0)

  def kill(self):
    if self.state != 'dead':
      os.kill(self.pid, signal.SIGKILL)
      self.reap()


def reference(table, degree, base):
  key = table, degree
  if key not in _ref:
    d = tempfile.mkdtemp(dir=base)
    c = Child(d + '/none', table, d + '/x')
    c.send(f'{degree} 0 -\n'.encode())
    st = c.wait()
    c.kill()
    out = os.path.join(d, 'out.npy')
    _ref[key] = out if st[0] == 'done' and os.path.exists(out) else None
    if _ref[key] is None:
      raise RuntimeError(f'no reference for {key}: {st}')
  return _ref[key]


def observe(path):
  """-1 no file, -2 not loadable, else the degree of the complete table."""
  if not os.path.exists(path):
    return -1
  try:
    with np.load(path) as z:
      for k in z.files:
        z[k]
      return int(z['max_degree'])
  except Exception:  # pylint: disable=broad-except
    return -2


def corrupt(path, kind):
  data = open(path, 'rb').read() if os.path.exists(path) else b'PK\x03\x04' + bytes(200)
  new = {'empty': b'', 'cut': data[:max(1, len(data) * 2 // 3)],
         'garbage': data[:len(data) // 2] + bytes((b ^ 0x5a) for b in data[len(data) // 2:]),
         'text': b'not a table\n' * 20}[kind]
  with open(path, 'wb') as f:
    f.write(new)


def replay(case):
  base = os.environ['TMPDIR']
  table, off = case['table'], case['off']
  d = tempfile.mkdtemp(dir=base)
  path = os.path.join(d, case['dir'] + table + '.npz')
  if case['dir'] and case['mkdir']:
    os.makedirs(os.path.dirname(path))
  writable = not case['dir'] or case['mkdir']
  kids, steps = {}, []

  def rec(a, p, want=0, on=False, st='', ok=0):
    steps.append({'a': a, 'p': p, 'want': want, 'on': on, 'file': observe(path), 'st': st, 'ok': ok})

  def step(p, cmd=b'g', name='step'):
    k = kids[p]
    if k.state == 'paused':
      k.send(cmd)
      st, ok = k.wait()
      rec(name, p, st=st, ok=ok)

  try:
    for h in case['hist']:
      p, a = h['p'], h['a']
      if a == 'start':
        want, on = h['x'][0] + off, bool(h['x'][1])
        if p in kids and (kids[p].state != 'ready' or not case['reuse']):
          kids[p].kill()
        if p not in kids or kids[p].state == 'dead':
          kids[p] = Child(d, table, path)
        ref = reference(table, want, base)
        rec('start', p, want, on)
        kids[p].todo = f'{want} {int(on)} {ref}\n'.encode()
      elif a == 'load':
        kids[p].send(kids[p].todo)
        st, ok = kids[p].wait()
        rec('step', p, st=st, ok=ok)
      elif a in ('write', 'rename'):
        step(p)
      elif a == 'fail':
        step(p, b'f', 'fail')
        while kids[p].state == 'paused':
          step(p, b'g', 'fail')
      elif a == 'crashwrite':
        step(p, b'k', 'kill')
        kids[p].kill()
        rec('kill', p)
      elif a == 'crash':
        kids[p].kill()
        rec('kill', p)
      elif a == 'corrupt':
        if os.path.isdir(os.path.dirname(path)):
          corrupt(path, h['x'][0])
          rec('corrupt', 0)
      elif a == 'delete':
        if os.path.exists(path):
          os.remove(path)
          rec('delete', 0)
    for p, k in kids.items():       # let everything finish
      while k.state == 'paused':
        step(p)
    # whatever happened, later requests are answered
    kids[9] = Child(d, table, path)
    want = off + case['last']
    rec('start', 9, want, True)
    kids[9].send(f'{want} 1 {reference(table, want, base)}\n'.encode())
    st, ok = kids[9].wait()
    rec('step', 9, st=st, ok=ok)
    while kids[9].state == 'paused':
      step(9)
  finally:
    for k in kids.values():
      k.kill()
    shutil.rmtree(d, ignore_errors=True)
  return [{'op': 'cache', 'table': table, 'writable': writable, 'steps': steps,
           'key': f'{table} {"/".join(h["a"] + str(h["p"]) for h in case["hist"])}'}]


def cli(case):
  """Tables generated ahead of time by the documented command line."""
  base = os.environ['TMPDIR']
  table, deg = case['table'], case['degree']
  d = tempfile.mkdtemp(dir=base)
  path = os.path.join(d, table + '.npz')
  seen = []
  try:
    for m, n in case['runs']:
      subprocess.run([sys.executable, '-m', 'e3x.so3.' + CLI[table], '--max_degree', str(m),
                      '--path', path, '--num_processes', str(n)], cwd=d, timeout=200,
                     stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, check=False)
      seen.append(observe(path))
    k = Child(d, table, path)
    k.send(f'{deg} 1 {reference(table, deg, base)}\n'.encode())
    st, ok = k.wait()
    while st == 'paused':
      k.send(b'g')
      st, ok = k.wait()
    k.kill()
  finally:
    shutil.rmtree(d, ignore_errors=True)
  return [{'op': 'cli', 'table': table, 'asked': [m for m, _ in case['runs']], 'seen': seen,
           'shipped': case['shipped'], 'st': st, 'ok': ok, 'degree': deg}]


def run(case):
  return cli(case) if case['op'] == 'cli' else replay(case)
