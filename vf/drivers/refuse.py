"""Unsupported operations, user-defined operations and invalid arguments (C17)."""
import math
import numpy as np
import jax
import jax.extend as jex
import jax.numpy as jnp
from jax import lax
from vf.drivers import lang, util, wrap
from vf.drivers.bounds import problem, run, base, nums
from autobound import enclosure_arithmetic, graph_editor, interval_arithmetic, polynomials, primitive_enclosures
from autobound.jax import jax_bound, jaxpr_editor


# -- operations without a rule -------------------------------------------------
@jax.custom_jvp
def my_jvp(u): return jnp.sin(u)
my_jvp.defjvp(lambda p, t: (jnp.sin(p[0]), jnp.cos(p[0]) * t[0]))


@jax.custom_vjp
def my_vjp(u): return 2 * u
my_vjp.defvjp(lambda u: (2 * u, None), lambda _, g: (2 * g,))


ANY = [
    jnp.tanh, jnp.sin, jnp.cos, jax.nn.relu, jnp.sign, jnp.floor, jnp.round, jnp.expm1, jnp.sinh, jnp.arctan, jax.lax.erf,
    lambda u: jnp.maximum(u, .1), lambda u: jnp.minimum(.1, u), lambda u: jnp.clip(u, -1., 1.), lambda u: jnp.where(u > 0, u, -u),
    lambda u: (u > 0).astype(u.dtype), lambda u: u.astype(np.int32).astype(u.dtype), lambda u: 2.**u, jnp.exp2,
    lambda u: lax.cond(jnp.sum(u) > 0, lambda v: v, lambda v: -v, u), lambda u: lax.fori_loop(0, 2, lambda i, v: v + v, u),
    lambda u: lax.while_loop(lambda v: jnp.sum(v) > 100, lambda v: v / 2, u), lambda u: lax.scan(lambda v, _: (v * .5, None), u, None, length=2)[0],
    my_jvp, my_vjp, jax.checkpoint(lambda v: v * v), lambda u: jnp.mod(u, 1.), lambda u: jnp.arctan2(u, 1.), lambda u: jnp.arctan2(1., u),
    lambda u: jax.nn.gelu(u), lambda u: jax.nn.elu(u), lambda u: jax.nn.leaky_relu(u), lambda u: jnp.nextafter(u, 0.), lambda u: jnp.real(u + 0j),
    lambda u: lax.reduce_precision(u, 8, 7), lambda u: jnp.stack([u, -u])[0], lambda u: jnp.concatenate([u.ravel(), u.ravel()])[:u.size].reshape(u.shape),
    lambda u: jnp.pad(u.ravel(), (1, 0))[1:].reshape(u.shape), lambda u: lax.nextafter(u, u), lambda u: jax.nn.log_sigmoid(u) * jnp.tanh(u),
    lambda u: jnp.abs(jnp.cbrt(jnp.sin(u))), lambda u: jax.nn.softplus(jnp.cos(u)), lambda u: jnp.power(jnp.asarray(1.5, u.dtype), u),
    lambda u: jax.scipy.special.digamma(u + 9), lambda u: lax.lgamma(u), lambda u: lax.exp(lax.max(u, u)),
    lambda u: (u * u + 1.)**u, lambda u: lax.pow(u * u + 1., jnp.abs(u)), lambda u: jnp.power(u * u + 1., jnp.sum(u)), lambda u: (u * u + 1.)**jnp.mean(u),
]
VECTOR = [
    lambda u: jnp.cumsum(u, axis=0), lambda u: jnp.sort(u, axis=-1), lambda u: jnp.flip(u), lambda u: u * 0 + jnp.max(u), lambda u: u * jnp.min(u, axis=0),
    lambda u: jnp.cumprod(u, axis=-1), lambda u: jnp.roll(u, 1), lambda u: u + u[(0,) * u.ndim], lambda u: u + jnp.prod(u), lambda u: u / 4 + jnp.linalg.norm(u.ravel(), ord=np.inf),
    lambda u: lax.dynamic_slice(u, (0,) * u.ndim, u.shape), lambda u: u.at[(0,) * u.ndim].set(0.), lambda u: jnp.argmax(u).astype(u.dtype) + u,
    lambda u: jax.nn.softmax(u), lambda u: jax.nn.logsumexp(u) + u, lambda u: jnp.take(u, jnp.arange(u.shape[0]), axis=0),
    lambda u: lax.reduce_window(u, -jnp.inf, lax.max, (1,) * u.ndim, (1,) * u.ndim, 'VALID'), lambda u: jnp.nanmax(u) + u,
]


def unsup(i, u):
  u = jnp.asarray(u)
  table = ANY + (VECTOR if u.ndim else [])
  return jnp.reshape(table[i % len(table)](u), u.shape)


def apply(nd, args):
  return unsup(nd['i'], args[0]) if nd['op'] == 'unsup' else nd['fn'](args[0]) if nd['op'] == 'user' else lang.apply(nd, args)


def values(P, x0):
  env = []
  for nd in P['nodes']:
    args = [env[k - 1] for k in nd['a']]
    env.append(jnp.asarray(x0) if nd['op'] == 'x' else apply(nd, [jnp.asarray(u) for u in args]))
  return env


def form(r, P):
  """The function, plain or wrapped."""
  if r.random() < .5: return lang.build(P, apply)
  old, lang.apply = lang.apply, apply_in_wrap
  try:
    f, _ = wrap.wrapped(r, P)
  finally:
    lang.apply = old
  def g(x):
    old, lang.apply = lang.apply, apply_in_wrap
    try: return f(x)
    finally: lang.apply = old
  return g


PLAIN = lang.apply
def apply_in_wrap(nd, args, hook=None):
  return unsup(nd['i'], args[0]) if nd['op'] == 'unsup' else nd['fn'](args[0]) if nd['op'] == 'user' else PLAIN(nd, args)


def unsupported(r, P):
  P, D, x0, a, b, f32 = problem(r, P)
  for nd in P['nodes']:
    if nd['op'] == 'unsup': nd['i'] -= 1
  env = values(P, x0)
  xs = [x0, a, b]
  _, res = run(form(r, P), D, x0, (a, b), xs, r.random() < .3)
  t = base(P, D, x0, a, b, f32, r=res, xs=[nums(x) for x in xs], kind='program')
  for nd, e in zip(t['P']['nodes'], env):
    if nd['op'] == 'unsup': nd['d'] = nums(e)
  return t


# -- operations of the user ----------------------------------------------------
FUNS = dict(exp=jnp.exp, sigmoid=jax.nn.sigmoid, softplus=jax.nn.softplus, swish=jax.nn.swish)
RULES = dict(exp=primitive_enclosures.exp_enclosure, sigmoid=primitive_enclosures.sigmoid_enclosure,
             softplus=primitive_enclosures.softplus_enclosure, swish=primitive_enclosures.swish_enclosure)


def new_primitive(name, f):
  p = jex.core.Primitive(name)
  p.def_abstract_eval(lambda x: jax.core.ShapedArray(x.shape, x.dtype))
  p.def_impl(f)
  jax.interpreters.mlir.register_lowering(p, jax.interpreters.mlir.lower_fun(f, multiple_results=False))
  return p


def user_op(r, P, k):
  P, D, x0, a, b, f32 = problem(r, P, f32=r.random() < .08)
  nd = next(nd for nd in P['nodes'] if nd['op'] == 'user')
  F, G = nd['f'], r.choice(sorted(set(FUNS) - {nd['f']}))
  name = r.choice([f'mine{k}', 'exp', 'sin', '__autobound_sigmoid__', 'logistic'])
  p = new_primitive(name, FUNS[F])
  xs = [x0, a, b]
  def with_op(fn):
    Q = dict(P, nodes=[dict(m, fn=fn) if m['op'] == 'user' else m for m in P['nodes']])
    return form(r, Q)
  on = r.random() < .3
  go = lambda fn: run(with_op(fn), D, x0, (a, b), xs, on)[1]
  r0 = go(p.bind)
  jax_bound.register_elementwise_primitive(p, RULES[F])
  r1, r2 = go(p.bind), go(FUNS[F])
  jax_bound.register_elementwise_primitive(p, RULES[G])
  r3, r4 = go(p.bind), go(FUNS[G])
  t = base(P, D, x0, a, b, f32, r0=r0, r=r1, r2=r2, r3=r3, r4=r4, xs=[nums(x) for x in xs], kind='user', name=name)
  t['mayrefuse'] = t['mayrefuse'] or D >= 5
  for m in t['P']['nodes']: m.pop('fn', None)
  return t


# -- arguments -----------------------------------------------------------------
def call(t, k):
  fn = t['fn']
  xp = jnp if k % 7 == 0 else np
  def go():
    if fn == 'bounds':
      ends = [np.ones(t['sa']) * .5, np.ones(t['sb']) * 1.5, np.ones(t['sb']) * 2]
      region = tuple(ends[:t['ends']])
      f = jax_bound.taylor_bounds(lambda x: jnp.sum(jnp.exp(x) * x), t['D'], **(dict(propagate_trust_regions=True) if t['prop'] else {}))
      return f(np.ones(t['sx']), region if k % 2 else tuple(map(jnp.asarray, region)))
    if fn == 'arith':
      A = enclosure_arithmetic.TaylorEnclosureArithmetic(t['D'], (-xp.ones(t['sa']), xp.ones(t['sb'])), xp)
      def enc(shapes):
        E = [xp.ones(s) + .5 for s in shapes]
        if k % 3 and len(E) > 1: E[-1] = (E[-1] - .25, E[-1])
        E[0] = E[0] + 50.                            # away from zero
        return tuple(E)
      u, v = enc(t['u']), enc(t.get('v', t['u']))
      if t['op'] == 'power': return A.power(u, 2)
      if t['op'] == 'root': return A.power(u, .5)
      return getattr(A, t['op'])(u, v)
    if fn == 'enclose': return enclosure_arithmetic.enclose_enclosure((1., 2., 3.), (-1., 1.), t['D'], xp)
    I = interval_arithmetic.IntervalArithmetic(xp)
    iv = (xp.asarray([1., 2.]), xp.asarray([2., 3.]))
    if fn == 'ipower': return I.power(iv, t['k'])
    if fn == 'opower': return I.outer_power(iv if k % 2 else iv[0], t['k'])
    if fn == 'oproduct':
      a, b = xp.ones(t['sa']), (xp.ones(t['sb']) - 1, xp.ones(t['sb']))
      return I.outer_product(a, b, batch_dims=t['k'])
    if fn == 'ppower': return polynomials.integer_power((1., 2.), t['k'])
    if fn == 'monotone':
      return primitive_enclosures.sharp_enclosure_monotonic_derivative(xp.asarray(0.), t['D'], (xp.asarray(-1.), xp.asarray(1.)), xp.exp,
                                                                      [1 / math.factorial(i) for i in range(t['k'])], True, xp)
    if fn == 'bounded': return primitive_enclosures.bounded_derivative_enclosure(t['D'], [xp.asarray(1.)] * t['k'], (xp.asarray(0.), xp.asarray(1.)))
    if fn == 'replace':
      c = np.arange(3.) if t['const'] else 1.
      def jx(n, m, c): return jax.make_jaxpr(lambda *a: tuple((sum(a) + 1.) * jnp.exp(a[0]) * (c if j == 0 else 2.) for j in range(m)))(*[0.] * n).jaxpr
      return jaxpr_editor.replace(jx(t['k'], t['m'], 1.), jx(t['k2'], t['m2'], c), jx(1, 1, 1.))
    if fn == 'graph':
      ops = [graph_editor.Operation('f', [f'a{j}'], [f'b{j}']) for j in range(t['k'])]
      return graph_editor.replace(ops, ops, graph_editor.ComputationGraph(['x'], ['y'], [graph_editor.Operation('f', ['x'], ['y'])]), lambda u, v: True)
  status, v = util.guarded(go, 60)
  return dict(t, kind='call', status=status, error=str(v) if status != 'ok' else '')


def main():
  out, k = [], 0
  for path in util.ARGS['programs']:
    for P in lang.load(path):
      if util.mine(k):
        r = util.rng('refuse', k)
        case = unsupported(r, P) if P['prof'] == 'unsup' else user_op(r, P, k)
        case.update(id=k, prof=P['prof'])
        if util.collect(out, case): break
      k += 1
  r = util.rng('calls')
  jax.config.update('jax_enable_x64', False)
  calls = sorted(lang.load(util.ARGS['calls']), key=repr)
  limit = util.ARGS['limit']
  if len(calls) > limit:                                 # all of the small families, a sample of the two large ones
    big = [t for t in calls if t['fn'] in ('bounds', 'arith')]
    r.shuffle(big)
    calls = [t for t in calls if t['fn'] not in ('bounds', 'arith')] + big[:limit]
  for i, t in enumerate(calls):
    if util.mine(i): util.collect(out, dict(call(t, i), id=k + i))
  util.finish(out)


if __name__ == '__main__':
  main()
