"""Sessions generated by TLC (SessionSim), and every call of them made first in a fresh process."""
import hashlib, json, os, select, signal, time
import numpy as np
import jax
import jax.extend as jex
import jax.numpy as jnp
from jax import lax
from jax.interpreters import mlir
from vf.drivers import util
from autobound import primitive_enclosures
from autobound.jax import jax_bound, jaxpr_editor

# (Nothing may be computed at import time: every session and every reference runs in a fork of this process.)


def primitive(name):
  p = jex.core.Primitive(name)
  p.def_abstract_eval(lambda u: jax.core.ShapedArray(u.shape, u.dtype))
  p.def_impl(lambda u: jnp.tanh(u))
  mlir.register_lowering(p, mlir.lower_fun(lambda u: jnp.tanh(u), multiple_results=False))
  return p


OPERATIONS = [primitive(f'verif_op{k}') for k in range(5)]     # the first is used by function 1
UNKNOWN = primitive('verif_unknown')


def rule(k):
  def sigmoidlike(x0, trust_region, degree, np_like):
    return primitive_enclosures.sigmoid_enclosure(x0, trust_region, degree, np_like)
  def explike(x0, trust_region, degree, np_like):
    return primitive_enclosures.exp_enclosure(x0, trust_region, degree, np_like)
  def softpluslike(x0, trust_region, degree, np_like):
    return primitive_enclosures.softplus_enclosure(x0, trust_region, degree, np_like)
  return [sigmoidlike, explike, softpluslike][k - 1]


def functions():
  """Function objects of one session; all take scalars and vectors."""
  @jax.jit
  def helper(u, v): return u * v + jnp.exp(-u)
  table = [1.5, -.5, 2.]
  def inner(x): return jnp.exp(x) * x
  def nested(x):
    g = jax_bound.taylor_bounds(inner, 1)(1., (.5, 2.)).final_interval()
    return x * g[0] + g[1]
  def kernel(x):
    k = jnp.asarray([[.5, -1.], [2., .25]], jnp.result_type(x))
    return lax.conv_general_dilated(jnp.stack([x.ravel(), x.ravel()]) if False else x.reshape((1, 1, -1)), k.reshape((2, 1, 2)), (1,), 'SAME')
  def dot(x):
    y = jnp.broadcast_to(x, (2,) + jnp.shape(x)) * jnp.asarray([1., -2.], jnp.result_type(x)).reshape((2,) + (1,) * jnp.ndim(x))
    return jnp.sum(jnp.exp(y), axis=0)
  def twins(make): return [make(jnp.array([v], jnp.float32)) for v in (1.5, -2.)]    # the same but for a captured array
  def compiled(A):
    g = jax.jit(lambda v: v * A.astype(jnp.result_type(v)))
    return lambda x: jnp.exp(g(x))
  def captured(A): return lambda x: jax.nn.softplus(x) * np.asarray(A, np.float64).astype(jnp.result_type(x)) + x
  def layered(A): return jax.jit(lambda x: jax.jit(lambda v: jax.nn.swish(v) + A.astype(jnp.result_type(v)))(x) * x)
  def twice(f): return lambda x: f(f(x))
  return [
      lambda x: OPERATIONS[0].bind(x * 1.) * 2 + x,
      lambda x: jnp.exp(x) / (1 + x * x),
      lambda x: jax.nn.sigmoid(x) * x,
      lambda x: jax.nn.swish(x - .5),
      lambda x: jax.nn.softplus(2 * x),
      lambda x: jax.nn.softplus(x) + jax.nn.silu(x) - jax.nn.sigmoid(x),
      lambda x: helper(x, x + 1),
      lambda x: helper(helper(x, x), 2.),
      jax.jit(lambda x: x**3 - 2 * x),
      lambda x: jnp.sqrt(x * x + 1),
      lambda x: jnp.abs(x) + .5 * x,
      lambda x: (x + 1)**2.5 if False else jnp.log(2 + x * x),
      nested,
      kernel,
      dot,
      lambda x: jnp.sum(x * x) * x,
      lambda x: x,
      lambda x: jnp.zeros_like(x) + 3.,
      lambda x: x + jnp.asarray(table[0], jnp.result_type(x)) * x**2,
      twice(lambda x: jax.nn.softplus(x) * .5),
      lambda x: x.astype(jnp.float32) * 2 if hasattr(x, 'astype') else x * 2,
      jax.jit(lambda x: jax.nn.swish(helper(x, .5))),
  ] + twins(compiled) + twins(captured) + twins(layered)


def own(k, dtype, how):
  """The reference point and three regions around it."""
  x0 = [0.5, -1., [0.25], [1., -.5], [0., 2.], [.5, -.25, 1.]][k - 1]
  dt = np.float32 if dtype == 'f32' else np.float64
  if how == 'list' and np.ndim(x0) == 0: return float(x0)
  return np.array(x0, dt)


def arguments(call):
  x = own(call['x'], call['dtype'], call['as'])
  s, t = [(.5, .25), (0., 1.), (.125, 2.)][call['region'] - 1]
  a, b = x - s, x + t
  if isinstance(x, np.ndarray): a, b = a.astype(x.dtype), b.astype(x.dtype)
  if call['as'] == 'jax': x, a, b = jnp.asarray(x), jnp.asarray(a), jnp.asarray(b)
  return x, ([a, b] if call['as'] == 'list' else (a, b))


def flat(v):
  """Exact contents: kind, precision, shape and bits."""
  if isinstance(v, (tuple, list)): return [flat(u) for u in v]
  u = np.asarray(v)
  return [str(u.dtype), list(u.shape), hashlib.sha1(np.ascontiguousarray(u).tobytes()).hexdigest()[:10]]


def digest(v): return hashlib.sha1(json.dumps(v).encode()).hexdigest()[:16]


class Session:
  def __init__(self):
    self.fs, self.held_funs, self.held = functions(), {}, []

  def call(self, call):
    """(result, digest of the coefficients, arguments unchanged)"""
    f = self.fs[call['f'] - 1]
    x, region = arguments(call)
    before = flat([x, region])
    def bounded():
      key = (call['f'], call['D'], call['prop'])
      def make(): return jax_bound.taylor_bounds(f, call['D'], **(dict(propagate_trust_regions=True) if call['prop'] else {}))
      if call['form'] == 'held':
        if key not in self.held_funs: self.held_funs[key] = make()
        return self.held_funs[key](x, region)
      return make()(x, region)
    def go():
      if call['form'] == 'jit':
        def coefficients(u, v): 
          b = jax_bound.taylor_bounds(f, call['D'], propagate_trust_regions=call['prop'])(u, v)
          return tuple(b.coefficients), b.lower(v[0])
        out = jax.jit(coefficients)(x, tuple(region))
        return ['ok', flat(out)], (lambda: flat(out))
      b = bounded()
      contents = lambda: flat([b.coefficients, b.x0, tuple(b.x_trust_region)])
      y = region[0] * .25 + region[1] * .75
      return ['ok', contents(), flat([b.lower(y), b.upper(x), b(region[1]), tuple(b.final_interval())])], contents
    try:
      out, contents = go()
    except Exception as e:  # pylint: disable=broad-except
      out = ['raised', type(e).__name__]
      contents = lambda: out
    return digest(out) if out[0] == 'ok' else ' '.join(out), contents, flat([x, region]) == before

  def fail(self, k, f):
    f = self.fs[f - 1]
    x, region = np.array([.5, 1.]), (np.array([0., .5]), np.array([1., 2.]))
    class Interrupt(BaseException): pass
    def interrupted(x):
      u = jax.nn.softplus(x) + f(x)
      raise Interrupt()
    def wrong(x):
      u = jax.nn.swish(x)
      return jnp.exp(u) + jnp.zeros(7) @ u
    def exit_in_rule(x0, trust_region, degree, np_like): raise Interrupt()
    kinds = [
        lambda: jax_bound.taylor_bounds(lambda u: f(jnp.sin(jax.nn.softplus(u))), 2)(x, region),
        lambda: jax_bound.taylor_bounds(f, -1),
        lambda: jax_bound.taylor_bounds(f, 2)(x, (region[0],)),
        lambda: jax_bound.taylor_bounds(f, 2)(x, (np.zeros(3), np.ones(3))),
        lambda: jax_bound.taylor_bounds(f, 1)(np.zeros((2, 2)), (np.zeros((2, 2)), np.ones((2, 2)))),
        lambda: jax_bound.taylor_bounds(interrupted, 1)(x, region),
        lambda: jax_bound.taylor_bounds(wrong, 1)(x, region),
        lambda: jax_bound.taylor_bounds(lambda u: UNKNOWN.bind(f(u) * u), 1, propagate_trust_regions=True)(x, region),
        lambda: jax_bound.taylor_bounds(lambda u: jnp.abs(u) * u, 4)(x, region),
        lambda: jax_bound.taylor_bounds(jax.jit(lambda u: jax.nn.sigmoid(u)), 8)(x, region),
        lambda: jaxpr_editor.replace(jax.make_jaxpr(lambda u: u + 1)(1.).jaxpr, jax.make_jaxpr(lambda u, v: u + v)(1., 1.).jaxpr, jax.make_jaxpr(f)(x).jaxpr),
        lambda: jax.jit(lambda u: jax_bound.taylor_bounds(interrupted, 1)(u, (u - 1, u + 1)).coefficients)(x),
    ]
    try:
      kinds[k - 1]()
    except (Exception, Interrupt):  # pylint: disable=broad-except
      return 'raised'
    return 'returned'

  def edit(self, k):
    pairs = [(lambda u: jnp.exp(u), lambda u: jnp.log(u)), (jax.nn.softplus, jax.nn.sigmoid), (lambda u: u * u, lambda u: u + u)]
    p, q = pairs[k - 1]
    for f in (self.fs[1], self.fs[4], self.fs[9]):
      jaxpr_editor.replace(jax.make_jaxpr(p)(.5).jaxpr, jax.make_jaxpr(q)(.5).jaxpr, jax.make_jaxpr(f)(.5).jaxpr)

  def run(self, events):
    out, x64, current = [], False, 0
    for e in events:
      e = dict(e, before=[digest(h()) for h in self.held], args=True, result='', coefs='')
      if e['ev'] == 'call':
        e['result'], h, e['args'] = self.call(e['call'])
        e['coefs'] = digest(h())
        self.held.append(h)
        e['state'] = [x64, current if e['call']['f'] == 1 else 0]
      elif e['ev'] == 'fail': e['result'] = self.fail(e['k'], e['f'])
      elif e['ev'] == 'register':
        jax_bound.register_elementwise_primitive(OPERATIONS[e['k']], rule(e['rule']))
        if e['k'] == 0: current = e['rule']
      elif e['ev'] == 'precision': jax.config.update('jax_enable_x64', e['on']); x64 = e['on']
      elif e['ev'] == 'edit': self.edit(e['k'])
      elif e['ev'] == 'clear': jax.clear_caches()
      out.append(e)
    return out


def first(call, x64, r):
  """The call in a fresh process."""
  if x64: jax.config.update('jax_enable_x64', True)
  if r: jax_bound.register_elementwise_primitive(OPERATIONS[0], rule(r))
  return Session().call(call)[0]


def forked(f, seconds=240):
  """f() in a copy of this process; None if it takes too long or the process ends otherwise."""
  rd, wr = os.pipe()
  pid = os.fork()
  if pid == 0:
    try:
      os.close(rd)
      data = json.dumps(f()).encode()
      with os.fdopen(wr, 'wb') as h: h.write(data)
      os._exit(0)
    except BaseException:  # pylint: disable=broad-except
      import traceback
      traceback.print_exc()
      os._exit(1)
  os.close(wr)
  data, end = b'', time.time() + seconds
  with os.fdopen(rd, 'rb') as h:
    while True:
      if not select.select([h], [], [], max(0, end - time.time()))[0]: break
      chunk = os.read(h.fileno(), 1 << 20)
      if not chunk: break
      data += chunk
  try: os.kill(pid, signal.SIGKILL)
  except ProcessLookupError: pass
  _, status = os.waitpid(pid, 0)
  return json.loads(data) if data and (os.WIFEXITED(status) and os.WEXITSTATUS(status) == 0 or data) else None


def main():
  sessions = [json.loads(line)['events'] for line in open(util.ARGS['sessions'])]
  refs, done, lost = {}, [], 0
  for i, events in enumerate(sessions):
    if not util.mine(i) or util.out_of_time(): continue
    out = forked(lambda: Session().run(events))
    if out is None:
      lost += 1
      continue
    table, ok = [], True
    for e in out:
      if e['ev'] != 'call': continue
      x64, r = e.pop('state')
      key = json.dumps([e['call'], x64, r], sort_keys=True)
      if key not in refs: refs[key] = forked(lambda: first(e['call'], x64, r))
      ok &= refs[key] is not None
      if not any(row['key'] == key for row in table):
        table.append(dict(key=key, call=e['call'], x64=x64, rule=r, result=refs[key]))
    if ok: done.append(dict(id=i, events=out, first=[{k: v for k, v in row.items() if k != 'key'} for row in table]))
    else: lost += 1
  if lost > 2: raise SystemExit(f'{lost} sessions lost')
  util.finish(done)


main()
