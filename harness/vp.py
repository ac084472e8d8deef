"""Shared machinery of the checks: TLC runner, worker pool, verdict, evidence.

Every check follows the same pipeline (see DESIGN.md):

  1. `tlc(...)`        model checks the specification (the design), and lets TLC
                       enumerate the behaviours/configurations to replay;
  2. `drive(...)`      runs the real code of /repo on them (worker processes),
                       recording one trace event per public call;
  3. `validate(...)`   lets TLC check each recorded event/trace against the
                       specification; a failing clause is a violation.

Verdicts are total: `Check.finish()` exits 0 or 1 (with a VIOLATION line); only
a failure of the machinery itself exits with 2.
"""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, 'spec')
PY = '/opt/venv/bin/python'
JARS = ('/opt/veriftools/tla/tla2tools.jar:'
        '/opt/veriftools/tla/CommunityModules-deps.jar')
NPROC = max(1, min(8, os.cpu_count() or 1))


class MachineryError(Exception):
  pass


class TlcResult:
  def __init__(self, out, rc, wall):
    self.out, self.rc, self.wall = out, rc, wall
    m = re.findall(r'(\d+) states generated, (\d+) distinct states found', out)
    self.generated, self.distinct = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
    self.ok = rc == 0 and 'No error has been found' in out
    self.json = []
    for line in out.splitlines():
      # PrintT(ToJson(x)) prints a TLA+ string literal.
      if line.startswith('"{') and line.endswith('}"'):
        try:
          self.json.append(json.loads(json.loads(line)))
        except ValueError:
          pass
    self.json.sort(key=repr)    # the order of parallel workers is not repeatable

  def error_text(self):
    keep = [l for l in self.out.splitlines()
            if not l.startswith(('Parsing', 'Semantic', 'Linting', '"{'))]
    return '\n'.join(keep[-60:])


def env_for_tlc(extra=None):
  e = dict(os.environ)
  e.pop('JAVA_TOOL_OPTIONS', None)
  e.update({k: str(v) for k, v in (extra or {}).items()})
  return e


class Check:
  """One run of one property's check."""

  def __init__(self, pid, level='model_checking'):
    self.pid = pid
    self.level = level
    self.t0 = time.time()
    self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    self.tier = os.environ.get('VERIF_TIER', 'quick')
    if self.tier not in ('quick', 'thorough'):
      self.tier = 'quick'
    self.quick = self.tier == 'quick'
    self.work = tempfile.mkdtemp(prefix=f'vp_{pid}_')
    self.violations = []       # dicts with at least 'clause'
    self.known = []            # known findings matched on this run
    self.cov = {'states': 0, 'transitions': 0,
                'traces_validated_against_impl': 0, 'samples': []}
    self.extra = {}
    self.assumptions = []
    self._n = 0

  # -- TLC -----------------------------------------------------------------
  def tlc(self, module, cfg=None, env=None, workers=NPROC, timeout=800,
          args=(), must_hold=True, count=True, heap=None):
    """Runs TLC on spec/<module>.tla with spec/<cfg>.cfg."""
    self._n += 1
    meta = os.path.join(self.work, f'meta{self._n}')
    cmd = ['java', '-XX:+UseParallelGC', '-Xss64m']
    cmd.append(f'-Xmx{heap or "6g"}')
    cmd += ['-Djava.io.tmpdir=' + self.work, '-cp', JARS, 'tlc2.TLC',
            '-config', os.path.join(SPEC, (cfg or module) + '.cfg'),
            '-metadir', meta, '-workers', str(workers), '-noGenerateSpecTE',
            '-nowarning', *args, os.path.join(SPEC, module + '.tla')]
    t = time.time()
    try:
      p = subprocess.run(cmd, cwd=SPEC, env=env_for_tlc(env), timeout=timeout,
                         stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                         text=True)
    except subprocess.TimeoutExpired as ex:
      raise MachineryError(f'TLC timed out on {module}') from ex
    finally:
      shutil.rmtree(meta, ignore_errors=True)
    r = TlcResult(p.stdout, p.returncode, time.time() - t)
    if count:
      self.cov['states'] += r.distinct
      self.cov['transitions'] += r.generated
    if must_hold and not r.ok:
      raise MachineryError(
          f'TLC did not accept {module} (rc {p.returncode}):\n{r.error_text()}')
    return r

  def model(self, module, cfg=None, env=None, **kw):
    """Model checks a specification module: the design itself."""
    r = self.tlc(module, cfg, env, **kw)
    self.extra.setdefault('model_runs', []).append(
        {'module': module, 'cfg': cfg or module, 'distinct': r.distinct,
         'generated': r.generated, 'wall_s': round(r.wall, 1)})
    return r

  # -- real code ------------------------------------------------------------
  def tables(self, cg=-1, wigner=-1):
    """Scratch caches filled by the current code (only to save time)."""
    out = os.path.join(self.work, 'tables')
    os.makedirs(out, exist_ok=True)
    env = dict(os.environ, JAX_PLATFORMS='cpu', PYTHONDONTWRITEBYTECODE='1',
               OMP_NUM_THREADS='1', TMPDIR=out)
    try:
      subprocess.run([PY, os.path.join(VERIF, 'harness', 'prep.py'), out, str(cg),
                      str(wigner)], env=env, cwd=out, timeout=300,
                     stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    except subprocess.TimeoutExpired:
      pass
    return {'tables': out}

  def drive(self, driver, cases, nproc=NPROC, timeout=800, shared=None,
            group=None):
    """Runs harness/drivers/<driver>.py on the cases; returns trace events.

    Cases are distributed round robin (or by `group(case)`).  A worker that
    dies takes only its unfinished cases with it; these yield 'crash' events.
    """
    self._n += 1
    base = os.path.join(self.work, f'drv{self._n}')
    os.makedirs(base)
    n = max(1, min(nproc, len(cases)))
    buckets = [[] for _ in range(n)]
    for i, c in enumerate(cases):
      k = (group(c) if group else i) % n
      buckets[k].append((i, c))
    procs = []
    env = dict(os.environ)
    env.update(JAX_PLATFORMS='cpu', PYTHONDONTWRITEBYTECODE='1',
               XLA_FLAGS='--xla_cpu_multi_thread_eigen=false '
               '--xla_disable_hlo_passes=algsimp --xla_backend_optimization_level=0',
               OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1',
               PYTHONHASHSEED='0', ABSL_MIN_LOG_LEVEL='3',
               TF_CPP_MIN_LOG_LEVEL='3', VERIF_SEED=str(self.seed),
               VERIF_TIER=self.tier, TMPDIR=base,
               PYTHONPATH=os.path.join(VERIF, 'harness'))
    for k, b in enumerate(buckets):
      inp, outp = os.path.join(base, f'in{k}'), os.path.join(base, f'out{k}')
      with open(inp, 'w') as f:
        json.dump({'cases': b, 'shared': shared}, f)
      log = open(os.path.join(base, f'log{k}'), 'w')
      procs.append((subprocess.Popen(
          [PY, os.path.join(VERIF, 'harness', 'worker.py'), driver, inp, outp],
          env=env, cwd=base, stdout=log, stderr=log), outp, k, log))
    deadline = time.time() + timeout
    got = {}
    for p, outp, k, log in procs:
      try:
        p.wait(max(1, deadline - time.time()))
      except subprocess.TimeoutExpired:
        p.kill()
        p.wait()
        raise MachineryError(f'driver {driver} timed out')
      finally:
        log.close()
      if os.path.exists(outp):
        with open(outp) as f:
          for line in f:
            if line.endswith('\n'):
              d = json.loads(line)
              got[d['i']] = d['ev']
    events = []
    lost = 0
    for i, c in enumerate(cases):
      if i in got:
        events.extend(got[i])
      else:
        lost += 1
        k = (group(c) if group else i) % n
        tail = open(os.path.join(base, f'log{k}')).read()[-1500:]
        events.append({'op': 'crash', 'case': i, 'msg': tail})
    self.extra['driver_cases'] = self.extra.get('driver_cases', 0) + len(cases)
    if lost:
      self.extra['driver_lost'] = self.extra.get('driver_lost', 0) + lost
    return events

  # -- trace validation -----------------------------------------------------
  def validate(self, module, events, cfg=None, env=None, timeout=800,
               sample=3, stateful=False, describe=None):
    """TLC checks the events against spec/<module>.tla."""
    crashes = [e for e in events if e.get('op') in ('crash', 'driver_error')]
    for e in crashes[:20]:
      self.violate('the real code could not be exercised', e)
    events = [e for e in events if e.get('op') not in ('crash', 'driver_error')]
    if not events:
      return
    self._n += 1
    path = os.path.join(self.work, f'trace{self._n}.ndjson')
    with open(path, 'w') as f:
      for e in events:
        f.write(json.dumps(e) + '\n')
    env = dict(env or {}, TRACE=path)
    r = self.tlc(module, cfg, env, timeout=timeout, must_hold=False)
    self.extra.setdefault('validations', []).append(
        {'module': module, 'events': len(events), 'wall_s': round(r.wall, 1)})
    if not r.ok:
      if 'Parsing or semantic analysis failed' in r.out or r.distinct == 0 and 'Error:' not in r.out:
        raise MachineryError(f'{module}: {r.error_text()}')
      # The specification cannot even interpret the recorded values.
      self.violate('trace rejected: ' + first_error(r.out),
                   {'op': 'trace', 'module': module, 'tlc': r.error_text()[-3000:]})
    elif not stateful and r.distinct != len(events) + 8:
      raise MachineryError(f'{module}: {r.distinct} states for {len(events)} events')
    self.cov['traces_validated_against_impl'] += len(events)
    worst = self.extra.setdefault('largest_deviation_ppm', {})
    for e in events:
      for k, v in e.items():
        if k.endswith('ppm') and isinstance(v, (int, float)):
          worst[k] = max(worst.get(k, 0), v)
    step = max(1, len(events) // max(1, sample))
    for e in events[::step][:sample]:
      self.cov['samples'].append(shorten(e))
    for v in r.json:
      if 'fails' in v:
        ev = events[v['i'] - 1]
        for clause in v['fails']:
          self.violate(str(clause), ev, describe)
    return r

  def violate(self, clause, event, describe=None):
    self.violations.append({'clause': clause, 'event': event,
                            'key': event.get('key') or describe_event(event)})

  # -- verdict --------------------------------------------------------------
  def finish(self):
    known = load_known(self.pid)
    fresh = []
    for v in self.violations:
      k = next((k for k in known if match(k, v)), None)
      if k:
        if k not in self.known:
          self.known.append(k)
      else:
        fresh.append(v)
    for k in self.known:
      print(f'KNOWN-FINDING: property={self.pid} {k["what"]}')
    ev = {'property': self.pid, 'tier': self.tier, 'seed': self.seed,
          'level': self.level, 'coverage': dict(self.cov, **self.extra),
          'assumptions': self.assumptions,
          'wall_s': round(time.time() - self.t0, 2), 'violations': len(fresh)}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', f'{self.pid}.json'), 'w') as f:
      json.dump(ev, f, indent=1)
    if fresh:
      rdir = os.path.join(VERIF, 'evidence', 'replay')
      os.makedirs(rdir, exist_ok=True)
      path = os.path.join(rdir, f'{self.pid}.json')
      with open(path, 'w') as f:
        json.dump(fresh[:50], f, indent=1)
      seen = set()
      for v in fresh:
        if v['clause'] not in seen and len(seen) < 12:
          seen.add(v['clause'])
          print(f'  clause violated: {v["clause"][:200]} [{v["key"][:300]}]')
      print(f'VIOLATION property={self.pid} replay={path}')
    shutil.rmtree(self.work, ignore_errors=True)
    print(f'{self.pid}: {len(fresh)} violation(s), '
          f'{self.cov["traces_validated_against_impl"]} events validated, '
          f'{self.cov["states"]} states, {time.time() - self.t0:.1f}s')
    return 1 if fresh else 0


def first_error(out):
  for line in out.splitlines():
    if line.startswith('Error:') and 'behavior up to' not in line:
      return line[:300]
  return 'evaluation error'


def describe_event(e):
  keep = {k: v for k, v in e.items() if len(json.dumps(v)) < 120}
  return json.dumps(keep)[:400]


def shorten(e):
  s = json.dumps(e)
  return e if len(s) < 1500 else s[:1500]


def load_known(pid):
  path = os.path.join(VERIF, 'known_findings.jsonl')
  out = []
  if os.path.exists(path):
    with open(path) as f:
      for line in f:
        line = line.strip()
        if line:
          d = json.loads(line)
          if d.get('property') == pid and d.get('status') == 'open':
            out.append(d)
  return out


def match(known, v):
  """A finding matches one specific clause on one specific call/input key."""
  return (known['clause'] == v['clause']
          and re.fullmatch(known['key'], v['key']) is not None)


def main(fn, pid, level='model_checking'):
  c = Check(pid, level)
  try:
    fn(c)
    rc = c.finish()
  except MachineryError as ex:
    print(f'MACHINERY ERROR in {pid}: {ex}')
    shutil.rmtree(c.work, ignore_errors=True)
    rc = 2
  except Exception:  # pylint: disable=broad-except
    traceback.print_exc()
    shutil.rmtree(c.work, ignore_errors=True)
    rc = 2
  sys.stdout.flush()
  return rc
