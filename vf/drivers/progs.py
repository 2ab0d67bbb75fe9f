"""Program editing problems generated by TLC (ProgSim) on autobound.jax.jaxpr_editor.replace."""
import functools, json
import jax
import numpy as np
from jax import lax
from vf.drivers import util
from autobound.jax import jaxpr_editor

jax.config.update('jax_enable_x64', True)
LITERALS = dict(L1=2., L2=-.5, L3=.75, L4=-1.)
CONSTANTS = dict(K1=[1., .5, -2.], K2=[1., .5, 2.], K3=[1.5, 1., 1.])
OPS = dict(neg=lax.neg, abs=lax.abs, exp=lax.exp, logistic=lax.logistic, add=lax.add, sub=lax.sub, mul=lax.mul, max=lax.max, min=lax.min)


def operation(d, called):
  op, k = d['op'], d['k']
  if op == 'ipow': return lambda u: lax.integer_pow(u, k)
  if op in ('sumto', 'maxto'):
    reduce = lax.reduce_sum if op == 'sumto' else lax.reduce_max
    return lambda u: lax.broadcast_in_dim(reduce(u, (k,)), (2, 2), (0,))
  if op == 'flip': return lambda u: lax.rev(u, (k,))
  if op == 'transpose': return lambda u: lax.transpose(u, (1, 0))
  if op == 'rev': return lambda u: lax.rev(u, (0,))
  if op == 'cumsum': return lambda u: lax.cumsum(u, axis=0, reverse=bool(k))
  if op == 'call': return called(d)
  return OPS[op]


def function(P, r, dtype):
  """The program as a Python function; equal called programs are sometimes one function object."""
  made = {}
  def called(d):
    key = json.dumps(d)
    if key in made and r.random() < .5: return made[key]
    inner = function(d['body'][0], r, dtype)
    def body(*args): return inner(*args)
    if d['k'] == 0: f = jax.jit(body)
    elif d['k'] == 2: f = jax.checkpoint(body)
    else:
      f = jax.custom_jvp(body)
      f.defjvp(lambda p, t: (inner(*p), inner(*t)))
    made[key] = f
    return f
  fs = [operation(o['d'], called) for o in P['ops']]
  def f(*args):
    env = dict(zip(P['ins'], args))
    read = lambda v: dtype(LITERALS[v]) if v in LITERALS else np.asarray(CONSTANTS[v], dtype) if v in CONSTANTS else env[v]
    for o, g in zip(P['ops'], fs):
      out = g(*[read(v) for v in o['i']])
      env.update(zip(o['o'], out if isinstance(out, (tuple, list)) else [out]))
    outs = [read(v) for v in P['outs']]
    return outs if len(outs) > 1 else outs[0]
  return f


def size(P):
  """The number of operations in each called program, in order."""
  return [v for o in P['ops'] for v in [[size(b) for b in o['d']['body']]] * (2 if o['d']['op'] in ('sumto', 'maxto') else 1)]


def traced_size(jaxpr):
  def inner(e):
    for key in ('jaxpr', 'call_jaxpr'):
      if key in e.params: return [traced_size(getattr(e.params[key], 'jaxpr', e.params[key]))]
    return []
  return [inner(e) for e in jaxpr.eqns]


def names(jaxpr):
  """Variables by name; literals are left out."""
  table = {}
  isvar = lambda v: not hasattr(v, 'val')
  def name(v): return table.setdefault(id(v), f'v{len(table)}')
  free = list(jaxpr.constvars) + list(jaxpr.invars)
  ins = [name(v) for v in free]
  lits = 'lit'
  ops = [dict(d='op', i=[name(v) for v in e.invars if isvar(v)], o=[name(v) for v in e.outvars]) for e in jaxpr.eqns]
  outs = [name(v) if isvar(v) else lits for v in jaxpr.outvars]
  return dict(ins=ins + [lits], outs=outs, ops=ops)


def evaluate(closed, args):
  return [np.atleast_1d(np.asarray(v, np.float64)) for v in jax.core.eval_jaxpr(closed.jaxpr, closed.consts, *args)]


def run(case, i):
  r = util.rng('progs', i)
  dtype = np.float32 if r.random() < .15 else np.float64
  has = lambda *words: any(w in json.dumps(case) for w in words)
  scalar = not has('"rev"', '"cumsum"', '"K1"', '"K2"', '"K3"') and r.random() < .5
  n = 3 if case['vec'] and has('"K1"', '"K2"', '"K3"') else r.choice([1, 2, 3])
  shape = (2, 2) if case['mat'] else () if scalar else (n,)
  # The subject may have another shape unless a called program or constant would not fit.
  other = shape if case['mat'] or has('"call"') or has('"K') or r.random() < .5 else (() if scalar else (r.choice([1, 2, 4]),))
  # If the pattern has a called program, the subject may be of another precision.
  mixed = '"call"' in json.dumps(case['pat']) and r.random() < .12
  own = (np.float64 if dtype == np.float32 else np.float32) if mixed else dtype
  trace = lambda P, s, k, dt: jax.make_jaxpr(function(P, r, dt))(*[np.zeros(s, dt) for _ in range(k)])
  pat, rep, subj = trace(case['pat'], shape, len(case['pat']['ins']), own), trace(case['rep'], shape, len(case['rep']['ins']), own), trace(case['subj'], other, 2, dtype)
  for P, J in ((case['pat'], pat), (case['rep'], rep), (case['subj'], subj)):
    if traced_size(J.jaxpr) != size(P):
      return None                                        # JAX simplified the program
  if pat.consts or rep.consts: return None
  before = [str(J) for J in (pat, rep, subj)]
  status, res = util.guarded(lambda: jaxpr_editor.replace(pat.jaxpr, rep.jaxpr, subj.jaxpr), 30)
  x, y = [np.asarray([r.uniform(-2, 2) for _ in range(max(1, int(np.prod(other))))], dtype) for _ in range(2)]
  out = dict(case, status=status, mixed=mixed, x=[util.num(v) for v in x], y=[util.num(v) for v in y], nin=2 + len(subj.consts) + 1, evaluated='', vals=[],
             code=dict(ins=[], outs=[], ops=[]), tol='#1e-20' if dtype == np.float64 else '#1e-7', big='#1e10' if dtype == np.float64 else '#1e4',
             unchanged=before == [str(J) for J in (pat, rep, subj)], id=i)
  if status != 'ok':
    out['error'] = str(res)
    return out
  out['code'] = names(res)
  status, vals = util.guarded(lambda: [np.atleast_1d(np.asarray(v, np.float64)) for v in jax.core.eval_jaxpr(
      res, subj.consts, *[v.reshape(other) for v in (x, y)])], 60)
  out['evaluated'] = status if status == 'ok' else f'{status}: {vals}'[:200]
  if status == 'ok': out['vals'] = [[util.num(v) for v in u.ravel()] for u in vals]
  return out


def main():
  cases = [json.loads(line) for f in util.ARGS['programs'] for line in open(f)]
  done = []
  for i, case in enumerate(cases):
    if util.mine(i) and util.collect(done, run(case, i)): break
  util.finish(done)


main()
