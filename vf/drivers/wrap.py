"""Other ways to write the same function: jitted parts, helpers and computed constants (C18)."""
import numpy as np
import jax
import jax.numpy as jnp
from jax import lax
from vf.drivers import lang


def computed(v, q):
  """The value v, computed by operations that the library cannot bound (they only see constants)."""
  v = np.asarray(v)
  flat = v.ravel()
  n = flat.size
  a = jnp.asarray(v)
  if q == 0:                                             # sort and gather
    return jnp.take(jnp.sort(jnp.asarray(flat[::-1])), np.argsort(np.argsort(flat, kind='stable'), kind='stable')).reshape(v.shape)
  if q == 1: return jnp.where(a > 100, a - 1, a)
  if q == 2: return jnp.tanh(jnp.arctanh(a / 8)) * 8
  if q == 3: return jnp.concatenate([jnp.asarray(flat[:n // 2]), jnp.asarray(flat[n // 2:])]).reshape(v.shape)
  if q == 4: return lax.fori_loop(0, 3, lambda i, s: s + jnp.asarray(v), -2 * a)
  if q == 5: return jax.nn.relu(a) - jax.nn.relu(-a)     # custom_jvp_call
  if q == 6: return lax.cond(jnp.sum(jnp.abs(a)) >= 0, lambda u: u, lambda u: -u, a)
  if q == 7: return jnp.floor(a * 0) + jnp.maximum(a, a - 1)
  if q == 8: return jax.jit(lambda u: jnp.flip(jnp.flip(u.ravel())).reshape(v.shape))(a)
  if q == 9: return jnp.sin(jnp.linspace(0., 1., 5))[0] + a
  if q == 10: return jax.vmap(lambda u: u)(a.reshape((1,) + v.shape))[0]
  if q == 11: return lax.scan(lambda s, u: (s, u), 0., jnp.asarray(flat))[1].reshape(v.shape)
  if q == 12: return a * (jax.nn.softplus(jnp.asarray(.5)) / jax.nn.softplus(.5))   # recognized functions of constants
  if q == 13: return a + jax.nn.swish(jnp.zeros(v.shape)) + (jax.nn.sigmoid(jnp.zeros(())) - .5)
  if q == 14: return jnp.pad(a.reshape((1,) + v.shape), [(1, 0)] + [(0, 0)] * v.ndim)[1]
  return jnp.round(jnp.cumsum(jnp.ones(4))[2]) - 3 + a
N_COMPUTED = 16


def segments(r, lo, hi, depth, p):
  """Splits nodes lo..hi into single nodes and jitted groups."""
  out, k = [], lo
  while k <= hi:
    if depth < 4 and r.random() < p:
      e = r.randint(k, hi)
      out.append(dict(lo=k, hi=e, items=segments(r, k, e, depth + 1, p * .8), capture=r.random() < .5, style=r.randint(0, 4)))
      k = e + 1
    else:
      out.append(k)
      k += 1
  return out


def wrapped(r, P):
  """(function, description)."""
  nodes, N = P['nodes'], len(P['nodes'])
  helpers = {}
  kinds = set()
  use_helper = r.random() < .4
  const = {k: r.randrange(N_COMPUTED) for k, nd in enumerate(nodes, 1) if nd['op'] == 'const' and r.random() < .5}
  plan = segments(r, 2, N, 0, r.choice([0, .2, .5, .9]))
  whole = r.choice([0, 0, 1, 2])
  is_const = {k for k, nd in enumerate(nodes, 1) if nd['op'] == 'const'}

  def apply(k, args):
    nd = nodes[k - 1]
    if nd['op'] == 'const': return computed(nd['v'], const[k]) if k in const else lang.apply(nd, args)
    args = [jnp.asarray(u) if nd['op'] in ('dot', 'conv', 'window') else u for u in args]
    if use_helper:
      key = repr(sorted((a, b) for a, b in nd.items() if a != 'a'))
      if key not in helpers: helpers[key] = jax.jit(lambda *u: lang.apply(nd, u))
      return helpers[key](*args)
    return lang.apply(nd, args)

  def run(env, items):
    for it in items:
      if isinstance(it, int):
        if nodes[it - 1]['op'] != 'x': env[it] = apply(it, [env[j] for j in nodes[it - 1]['a']])
        continue
      lo, hi = it['lo'], it['hi']
      ins = sorted({j for k in range(lo, hi + 1) for j in nodes[k - 1]['a'] if j < lo})
      outs = [k for k in range(lo, hi + 1) if k == N or any(k in nodes[m - 1]['a'] for m in range(hi + 1, N + 1))]
      if not outs: continue
      held = {j: env[j] for j in ins if it['capture'] and j in is_const}
      ins = [j for j in ins if j not in held]
      def body(*args, held=held, ins=ins, outs=outs, it=it):
        inner = dict(held)
        inner.update(zip(ins, args))
        run(inner, it['items'])
        return tuple(inner[k] for k in outs)
      args = [env[j] for j in ins]
      st = it['style']
      if st == 0 and len(outs) == 1:
        vals = (jax.jit(lambda *a, body=body: body(*a)[0])(*args),)
      elif st == 1:
        vals = jax.jit(lambda d, body=body, n=len(args): body(*[d[f'v{i}'] for i in range(n)]))({f'v{i}': u for i, u in enumerate(args)})
      elif st == 2:                                      # results not used, and a result that is an argument
        vals = jax.jit(lambda *a, body=body: body(*a) + (jnp.asarray(0.),) + tuple(a[:1]))(*args)[:len(outs)]
      elif st == 3:
        vals = jax.jit(lambda a, b, body=body: body(*b, *a)[::-1])(args[1:], args[:1])[::-1]
      else:
        vals = jax.jit(jax.jit(body))(*args)
      env.update(zip(outs, vals))

  def f(x):
    env = {1: x}
    run(env, plan)
    return jnp.asarray(env[N])
  g = f
  for _ in range(whole): g = jax.jit(g)
  return g, dict(helper=use_helper, const=sorted(set(const.values())), whole=whole, plan=repr(plan)[:300])


def system(r, P):
  """A system of module MC_Inline: a main program that calls compiled functions g and h; (function, description)."""
  ops = dict(s=lambda u: lang.apply(dict(op='sigmoid', style=r.randint(0, 3)), [u]), mul=lambda u, v: u * v, neg=lambda u: -u)
  literal = r.choice([2., np.float64(2.), np.asarray(2.)])
  def function(name):
    f = P['fns'][name]
    def run(*args):
      env = {0: literal, **dict(zip(f['ins'], args))}
      for e in f['eqns']:
        a = [env[v] for v in e['a']]
        env.update(zip(e['o'], compiled[e['op']](*a) if e['op'] in compiled else (ops[e['op']](*a),)))
      return tuple(env[v] for v in f['outs'])
    return run
  compiled = {name: jax.jit(function(name)) for name in ('g', 'h')}
  main = function('main')
  f = lambda x: jnp.asarray(main(x)[0])
  return (jax.jit(f) if r.random() < .2 else f), dict(fns=repr(P['fns']))
