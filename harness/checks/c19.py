"""C19: matrices of irreducible blocks."""
import cover


def check(c):
  space = c.model('MCMatMat').json
  if not c.quick:
    space += [dict(ds=ds, mult=m, max=t) for ds in ([3], [0, 3], [3, 1], [2, 3, 0], [1, 1, 2, 0], [0, 1, 2, 3])
              for m in (1, 2, 3) for t in range(max(ds), 2 * max(ds) + 1)]
  space = sorted(space, key=repr)
  cases = []
  for rep in range(1 if c.quick else 4):
    f = lambda d: dict(d, n=len(d['ds']), first=d['ds'][0], last=d['ds'][-1], top=max(d['ds']),
                       rel=d['max'] - max(d['ds']), dup=len(set(d['ds'])) < len(d['ds']))
    fields = ['n', 'first', 'last', 'top', 'rel', 'dup', 'mult', 'shift', 'precision', 'nomax']
    full = [dict(f(d), op='assemble', shift=s, precision=p, nomax=nm) for d in space for s in (True, False)
            for p in ('highest', 'float32') for nm in (True, False) if not nm or d['max'] == 2 * max(d['ds'])]
    pick = cover.pick(full, 60 if c.quick else 300, c.seed + rep, 2, fields)
    wt = [dict(f(d), op='weights', shells=s, stddev=sd) for d in space for s in (40, 300) for sd in (10, 3, 25)]
    pick += cover.pick(wt, 16 if c.quick else 80, c.seed + rep, 2, ['n', 'top', 'rel', 'dup', 'mult', 'shells', 'stddev'])
    ch = [dict(f(d), op='chain', shells=s, batch=b, extra=x, shift=sh, precision='highest') for d in space for s in (1, 4)
          for b in ([], [2], [2, 3]) for x in (0, 1) for sh in (True, False)]
    pick += cover.pick(ch, 16 if c.quick else 80, c.seed + rep, 2, ['n', 'top', 'rel', 'dup', 'mult', 'shells', 'batch', 'extra', 'shift'])
    cases += [dict(d, rep=c.seed + rep) for d in pick]
  ev = c.drive('matmat', cases, shared=c.tables(cg=4 if c.quick else 6))
  c.validate('TraceMatMat', ev)
  c.assumptions.append('degrees up to 2 (quick) or 3 (thorough), up to 3 (4) parts taken once or twice (three times)')
