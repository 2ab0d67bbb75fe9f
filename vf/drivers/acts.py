"""Activation functions in programs, compared with operations registered for them (C20)."""
import functools
import numpy as np
import jax
import jax.numpy as jnp
from jax import lax
from vf.drivers import lang, refuse, util
from vf.drivers.bounds import base, nums, problem, run, x64
from autobound import primitive_enclosures
from autobound.jax import jax_bound

FUNS = dict(sigmoid=[jax.nn.sigmoid], softplus=[jax.nn.softplus], swish=[jax.nn.swish, jax.nn.silu])
RULES = dict(sigmoid=primitive_enclosures.sigmoid_enclosure, softplus=primitive_enclosures.softplus_enclosure,
             swish=primitive_enclosures.swish_enclosure)
MINE = {}
for _name, _f in FUNS.items():
  MINE[_name] = refuse.new_primitive(f'my_{_name}', _f[0])
  jax_bound.register_elementwise_primitive(MINE[_name], RULES[_name])


def dressed(r, f, g):
  """The same elementwise function f, called in some other way; and g called with an argument of the same shape."""
  q = r.randrange(9)
  def shaped(f):                                         # (powers of arrays have looser enclosures than powers of scalars)
    return lambda u: jnp.reshape(f(jnp.reshape(u, (-1,))), jnp.shape(u))
  if q == 0: return jax.jit(f), g
  if q == 1: return jax.jit(lambda v: jax.jit(lambda w: f(w))(v)), g
  if q == 2: return shaped(jax.vmap(f)), shaped(g)
  if q == 3: return shaped(jax.jit(f)), shaped(g)
  if q == 4: return functools.partial(f), g
  if q == 5: return jax.named_call(f, name='layer'), g
  if q == 6:                                             # a helper with two results, one of them unused
    return lambda u: jax.jit(lambda v: (f(v), v))(u)[0], g
  return f, g


def program(r, P, dtype_mix):
  """Two forms of the program."""
  nodes = P['nodes']
  shared = {}
  use_shared = r.random() < .4
  pick = {}
  for k, nd in enumerate(nodes):
    if nd['op'] in FUNS:
      f = r.choice(FUNS[nd['op']])
      if nd['op'] == 'sigmoid' and r.random() < .25: f = lax.logistic
      pick[k] = shared.setdefault(nd['op'], dressed(r, f, MINE[nd['op']].bind)) if use_shared else dressed(r, f, MINE[nd['op']].bind)
  grouped = {m for k, nd in enumerate(nodes) if 'near' in nd for m in range(k, k + nd['near']['len'])}
  cast = {k for k in sorted(set(pick) - grouped) if dtype_mix and r.random() < .5}
  def apply(k, args, mine):
    nd = nodes[k]
    if nd['op'] not in FUNS: return lang.apply(nd, [jnp.asarray(u) if nd['op'] in ('dot', 'conv', 'window') else u for u in args])
    if k in grouped: return MINE[nd['op']].bind(jnp.asarray(args[0]))
    f = pick[k][mine]
    u = jnp.asarray(args[0])
    if k in cast: return f(u.astype(np.float32)).astype(u.dtype)
    return f(u)
  def raw(k, args):                                      # inside a look-alike: without further wrapping
    nd = nodes[k]
    if nd['op'] == 'sigmoid': return lax.logistic(args[0])
    return lang.apply(nd, args)
  def group(env, k, named):
    """The nodes of a look-alike, in a compiled function of its name."""
    lo, hi = k, k + nodes[k]['near']['len'] - 1
    ins = sorted({j - 1 for m in range(lo, hi + 1) for j in nodes[m]['a'] if j - 1 < lo})
    outs = [hi] + [m for m in range(lo, hi) if any(m + 1 in nd['a'] for nd in nodes[hi + 1:])]
    def body(*args):
      inner = dict(zip(ins, args))
      for m in range(lo, hi + 1): inner[m] = raw(m, [inner[j - 1] for j in nodes[m]['a']])
      return tuple(inner[m] for m in outs) if len(outs) > 1 else inner[hi]
    body.__name__ = body.__qualname__ = nodes[k]['near']['name']
    res = jax.jit(body)(*[jnp.asarray(env[j]) for j in ins])
    env.update(zip(outs, res if len(outs) > 1 else (res,)))
    return hi + 1
  def form(mine):
    def f(x):
      env, k = {}, 0
      while k < len(nodes):
        nd = nodes[k]
        if nd['op'] == 'x': env[k] = x
        elif 'near' in nd and not mine:
          k = group(env, k, True)
          continue
        else: env[k] = apply(k, [env[j - 1] for j in nd['a']], mine)
        k += 1
      return jnp.asarray(env[len(nodes) - 1])
    return f
  f = form(False)
  for _ in range(r.choice([0, 0, 0, 1, 2])): f = jax.jit(f)
  return f, form(True), bool(cast)


def is_same(P):
  """Is one of the look-alikes the function itself (or a part of it)?"""
  out = False
  for k, nd in enumerate(P['nodes']):
    if 'near' in nd:
      group = P['nodes'][k:k + nd['near']['len']]
      out |= nd['near']['name'] == 'silu' and [m['op'] for m in group] == ['sigmoid', 'mul'] and sorted(group[1]['a']) == sorted([group[0]['a'][0], k + 1])
  return out


def activations(r, P):
  q = r.random()
  mode = 'f64' if q < .45 else 'f32' if q < .7 else 'mixed' if q < .85 else 'cast'
  P, D, x0, a, b, f32 = problem(r, P, f32=mode in ('f32', 'mixed'), degrees=(0, 1, 2, 2, 3, 3, 4, 5) if P['n'] < 0 else (0, 1, 1, 2, 2, 3) if P['n'] == 1 else (0, 1, 1, 2))
  x64(mode != 'f32')
  xs = [x0, a, b] + lang.points(r, x0, a, b, 3)
  f, g, cast = program(r, P, mode == 'cast')
  on = r.random() < .2
  _, res = run(f, D, x0, (a, b), xs, on)
  _, res2 = run(g, D, x0, (a, b), [], on)
  return base(P, D, x0, a, b, f32 or cast, r=res, r2=res2, xs=[nums(x) for x in xs], kind='act', same=is_same(P), mode=mode)


# -- look-alikes outside the language ------------------------------------------
@jax.custom_jvp
def other_logaddexp(u, v):
  m, d = jnp.maximum(u, v), u - v
  return jnp.where(jnp.isnan(d), u + v, m + jnp.log1p(jnp.exp(-2 * jnp.abs(d))))
other_logaddexp.defjvps(lambda t, o, u, v: t, lambda t, o, u, v: t)
other_logaddexp.__name__ = 'logaddexp'


def named(name, f):
  f.__name__ = f.__qualname__ = name
  return jax.jit(f)


MISSES = [
    named('softplus', lambda u: jnp.logaddexp(u, 1.)), named('softplus', lambda u: jnp.logaddexp(u, u)), named('softplus', lambda u: jnp.logaddexp(0., u)),
    named('softplus', lambda u: jnp.logaddexp(u, -0.5)), named('softplus', lambda u: 2 * jnp.logaddexp(u, 0.)), named('softplus', lambda u: jnp.logaddexp(-u, 0.)),
    named('softplus', lambda u: jnp.logaddexp2(u, 0.)), named('softplus', lambda u: jnp.logaddexp(u, 0.) + u), named('softplus', lambda u: other_logaddexp(u, 0.)),
    named('softplus', lambda u: jnp.logaddexp(2 * u, 0.)), named('softplus', lambda u: jnp.maximum(u, 0.)), lambda u: jnp.logaddexp(u, 1.),
    named('silu', lambda u: u * lax.tanh(u)), named('silu', lambda u: jnp.maximum(u, lax.logistic(u))), named('silu', lambda u: u * lax.logistic(jnp.maximum(u, 0))),
    named('sigmoid', lambda u: lax.tanh(u)), named('sigmoid', lambda u: lax.logistic(jnp.abs(u))), named('sigmoid', lambda u: jnp.floor(lax.logistic(u))),
    jax.nn.hard_sigmoid, jax.nn.hard_silu, jax.nn.gelu, jax.nn.mish, jax.nn.log_sigmoid, jax.nn.elu, jax.nn.soft_sign, jax.nn.relu6, jax.nn.celu,
    named('silu', lambda u: u * lax.logistic(u) + 0 * lax.logistic(2 * u)), named('silu', lambda u: u / (1 + jnp.exp(-u))), named('sigmoid', lambda u: 1 / (1 + jnp.exp(u))),
    named('silu', lambda u: jax.nn.silu(jax.nn.silu(u))), named('softplus', lambda u: jax.nn.softplus(jax.nn.softplus(u))), named('sigmoid', lambda u: jax.nn.sigmoid(jax.nn.sigmoid(u))),
    named('silu', lambda u: [y := lax.logistic(u), u * y][0]), named('silu', lambda u: [y := lax.logistic(u), u * y, u][2]), named('softplus', lambda u: (jnp.logaddexp(u, 0.), u)[1]),
    named('sigmoid', lambda u: (lax.logistic(u), u)[1]), named('silu', lambda u: [y := lax.logistic(u), z := u * y, y][2] + 0.),
    named('silu', lambda u: lax.logistic(u) * lax.logistic(u)), named('silu', lambda u: lax.logistic(u * u)), named('silu', lambda u: lax.logistic(u) + u), named('silu', lambda u: u - lax.logistic(u)),
]
AROUND = [lambda f, u: f(u), lambda f, u: f(2 * u) - 1, lambda f, u: jax.nn.softplus(u) + f(u), lambda f, u: f(jax.nn.swish(u)), lambda f, u: jax.jit(lambda v: f(v) * v)(u),
          lambda f, u: f(f(u)), lambda f, u: jax.nn.silu(f(u)) + jax.nn.silu(u), lambda f, u: jax.vmap(f)(jnp.reshape(u, (-1,)))]


def miss(r, i):
  f, around = MISSES[i % len(MISSES)], AROUND[(i // len(MISSES)) % len(AROUND)]
  f32 = r.random() < .3
  x64(not f32 or r.random() < .3)
  n = r.choice([-1, -1, 2])
  x0, a, b = lang.region(r, n, f32)
  D = r.choice([0, 1, 2, 3] if n < 0 else [0, 1, 2])
  xs = [x0, a, b] + lang.points(r, x0, a, b, 4)
  g = lambda u: around(f, u)
  _, res = run(g, D, x0, (a, b), xs)
  return dict(P=dict(n=n, nodes=[dict(op='x', a=[])]), D=D, x0=nums(x0), a=nums(a), b=nums(b), f32=f32, r=res, xs=[nums(x) for x in xs],
              vals=[nums(g(jnp.asarray(x))) for x in xs], kind='miss', i=i % len(MISSES), around=(i // len(MISSES)) % len(AROUND))


def main():
  out, k = [], 0
  for path in util.ARGS['programs']:
    for P in lang.load(path):
      if util.mine(k):
        case = activations(util.rng('acts', k), P)
        if case is not None: case.update(id=k, prof=P['prof'])
        if util.collect(out, case): break
      k += 1
  for i in range(util.ARGS['misses']):
    if util.mine(k + i):
      case = miss(util.rng('miss', i), i)
      case.update(id=k + i)
      util.collect(out, case)
  x64(False)
  util.finish(out)


if __name__ == '__main__':
  main()
