"""Replays matching and replacement problems generated by TLC on autobound.graph_editor."""
import copy, json
from vf.drivers import util
from autobound import graph_editor as ge

FALSY = [0, '', None, (), frozenset(), 1, 'x', (0,), -1, 'v', (None,), 2, 3, 4, 5, 6, 7, 8, 9]


def naming(names, variant):
  """Distinct variable objects, several of them false in a Boolean context."""
  names = sorted(names)
  if variant == 0:
    return {n: n for n in names}
  if variant == 1:
    return {n: i for i, n in enumerate(names)}
  if variant == 2:
    return {n: (n, i) for i, n in enumerate(names)}
  return {n: FALSY[i] if i < len(FALSY) else ('y', i) for i, n in enumerate(names)}


def run(case, k):
  # Pattern and subject may share names (the replacement's names are the pattern's).
  names = set()
  for key in ('pat', 'rep', 'sub', 'ops'):
    for op in case.get(key, []):
      names |= set(op['i']) | set(op['o'])
  names |= set(case.get('ins', [])) | set(case.get('outs', []))
  variant = k % 4
  enc = naming(names, variant)
  dec = {v: n for n, v in enc.items()}
  kinds = sorted({op['d'] for key in ('pat', 'rep', 'sub', 'ops') for op in case.get(key, [])})
  kenc = {d: d if variant != 3 else [0, None, 'f', (), 2.5, 'h', 1j, 'z', -3][i] for i, d in enumerate(kinds)}
  kdec = {v: d for d, v in kenc.items()}
  seq = tuple if k % 3 == 0 else list
  def op(o): return ge.Operation(kenc[o['d']], seq(enc[v] for v in o['i']), seq(enc[v] for v in o['o']))
  allowed = {(enc[u], enc[v]) for u, v in case['can']}
  can_bind = lambda u, v: (u, v) in allowed
  outer = list if k % 2 else tuple
  pat = outer(op(o) for o in case['pat'])
  name = lambda v: dec[v] if v in dec else 'new ' + repr(v)
  unop = lambda o: dict(d=kdec.get(o.data, 'unknown ' + repr(o.data)), i=[name(v) for v in o.inputs], o=[name(v) for v in o.outputs])
  out = {k: v for k, v in case.items()}
  if case['kind'] == 'match':
    sub = outer(op(o) for o in case['sub'])
    before = copy.deepcopy((pat, sub))
    status, r = util.guarded(lambda: ge.match(pat, sub, can_bind), 10)
    out.update(status=status, none=r is None, m=[], same=(pat, sub) == before)
    if status == 'ok' and r is not None:
      out['m'] = [[name(u), name(v)] for u, v in r.items()]
  else:
    rep = [op(o) for o in case['rep']]
    data = ['some', {'data': k}]
    g = ge.ComputationGraph(seq(enc[v] for v in case['ins']), seq(enc[v] for v in case['outs']), [op(o) for o in case['ops']], data=data)
    before = copy.deepcopy((pat, rep, g))
    status, r = util.guarded(lambda: ge.replace(pat, rep, g, can_bind), 10)
    out.update(status=status, same=(pat, rep, g) == before, ops1=[], ins1=[], outs1=[], data1=False)
    if status == 'ok':
      out.update(ops1=[unop(o) for o in r.operations], ins1=[name(v) for v in r.inputs], outs1=[name(v) for v in r.outputs],
                 data1=r.data == ['some', {'data': k}])
  if status != 'ok':
    out['error'] = f'{status}: {r}'
  return out


def main():
  cases = [json.loads(line) for f in util.ARGS['cases'] for line in open(f)]
  cases = [c for c in cases if c['kind'] == util.ARGS['kind']]
  cases.sort(key=lambda c: json.dumps(c, sort_keys=True))     # TLC's workers write in any order
  r = util.rng('graph')
  limit = util.ARGS['limit']
  if len(cases) > limit:
    cases = r.sample(cases, limit)
  util.finish([run(c, k) for k, c in enumerate(cases) if util.mine(k)])


main()
