"""Programs of module Lang as JAX functions, with values for their constants."""
import json
import numpy as np
import jax
import jax.numpy as jnp
from jax import lax
from vf.drivers import util

# (Some are close to integers without being integers.)
POWERS = [.5, 1.5, -.5, 2.5, 1 / 3, 3., -1., 2., .75, -1.5, 2.003, 1.01, -1.004, 3.0005, .0625, 2.9996, -2., 4.25]


def fill(r, P, f32=False):
  """Chooses the constants of a generated program (in place)."""
  for nd in P['nodes']:
    if nd['op'] == 'const':
      k = int(np.prod(nd['s'], dtype=int))
      def one():
        if nd['kind'] == 'pos': return r.choice([1., .5, 2., .25]) if r.random() < .4 else r.uniform(.3, 2.5)
        return r.choice([1., -1., .5, -2., 2., 0.]) if r.random() < .3 else r.randint(-8, 8) / 4 if r.random() < .5 else r.uniform(-2, 2)
      v = np.array(nd['d'] if 'd' in nd else [one() for _ in range(k)], dtype=np.float32 if f32 else np.float64)
      nd['v'] = v.reshape(nd['s'])
    elif nd['op'] == 'rpow':
      nd['v'] = POWERS[nd['i'] - 1]
    nd['style'] = r.randint(0, 3)
  return P


def export(P):
  """The program as it appears in a trace (a record of module Lang)."""
  out = []
  for nd in P['nodes']:
    e = {k: v for k, v in nd.items() if k not in ('v', 'style', 'kind', 'i', 'safe', 'near')}
    if nd['op'] == 'const': e['d'] = [util.num(v) for v in np.ravel(nd['v'])]
    if nd['op'] == 'rpow': e['p'] = util.num(np.float32(nd['v']) if not jax.config.jax_enable_x64 else nd['v'])
    out.append(e)
  return dict(n=P['n'], nodes=out)


SIGMOIDS = [jax.nn.sigmoid, lax.logistic, jax.nn.sigmoid, jax.nn.sigmoid]
SWISHES = [jax.nn.swish, jax.nn.silu, jax.nn.swish, jax.nn.silu]


def apply(nd, args, hook=None):
  op, st = nd['op'], nd.get('style', 0)
  u = args[0] if args else None
  if op == 'const':
    return jnp.asarray(nd['v']) if st != 1 else (np.asarray(nd['v']) if nd['s'] or st == 3 else float(nd['v']))
  if op == 'neg': return -u
  if op in ('abs', 'exp', 'log', 'sqrt', 'cbrt'): return getattr(jnp, op)(u)
  if op == 'rsqrt': return lax.rsqrt(u)
  if op == 'sigmoid': return SIGMOIDS[st](u)
  if op == 'softplus': return jax.nn.softplus(u)
  if op == 'swish': return SWISHES[st](u)
  if op == 'ipow': return u**nd['k'] if st < 2 or nd['k'] in (0, 1) else lax.integer_pow(u, nd['k'])
  if op == 'rpow': return u**nd['v'] if st < 2 else jnp.power(u, nd['v'])
  if op == 'add': return u + args[1]
  if op == 'sub': return u - args[1]
  if op == 'mul': return u * args[1]
  if op == 'div': return u / args[1]
  if op == 'reshape': return jnp.reshape(u, nd['s'])
  if op == 'transpose': return jnp.transpose(u, nd['perm'])
  if op == 'broadcast': return jnp.broadcast_to(u, nd['s'])
  if op == 'bid': return lax.broadcast_in_dim(u, tuple(nd['s']), tuple(nd['dims']))
  if op == 'sum': return jnp.sum(u, axis=tuple(nd['axes']))
  if op == 'squeeze': return jnp.squeeze(u, axis=tuple(nd['axes']))
  if op == 'window':
    return lax.reduce_window(u, np.asarray(0, u.dtype), lax.add, tuple(nd['w']), tuple(nd['st']), [tuple(p) for p in nd['pad']],
                             tuple(nd['bd']), tuple(nd['wd']))
  if op == 'dot':
    return lax.dot_general(u, args[1], ((tuple(nd['lc']), tuple(nd['rc'])), (tuple(nd['lb']), tuple(nd['rb']))), precision='highest')
  if op == 'conv':
    dn = lax.ConvDimensionNumbers(tuple(nd['lp']), tuple(nd['rp']), tuple(nd['op2']))
    return lax.conv_general_dilated(u, args[1], tuple(nd['st']), [tuple(p) for p in nd['pad']], lhs_dilation=tuple(nd['ld']),
                                    rhs_dilation=tuple(nd['rd']), dimension_numbers=dn, feature_group_count=nd['g'], precision='highest')
  raise ValueError(op)


def build(P, apply=apply):
  """The program as a function of x."""
  def f(x):
    env = []
    for nd in P['nodes']:
      env.append(x if nd['op'] == 'x' else apply(nd, [jnp.asarray(env[k - 1]) if nd['op'] in ('dot', 'conv', 'window') else env[k - 1] for k in nd['a']]))
    return jnp.asarray(env[-1])
  return f


def load(path):
  return [json.loads(line) for line in open(path)]


def region(r, n, f32=False, wide=.1):
  """x0, a, b as arrays of shape () or (n,)."""
  k = 1 if n == -1 else n
  narrow = r.random() < .15
  def one():
    x0 = r.choice([0., 1., -1., .5, -.75, 2.]) if r.random() < .3 else r.gauss(0, 1)
    def step():
      q = r.random()
      return 0. if q < .12 else r.uniform(.02, .3) if q < .35 else r.uniform(3, 8) if q > 1 - wide else r.choice([.5, 1., .25]) if q < .5 else r.uniform(.1, 1.5)
    s, t = step(), step()
    if narrow: s, t = [v if v == 0 else .03 + (v % .09) for v in (s, t)]
    if f32: s, t = [v if v == 0 else max(v, .1) for v in (s, t)]
    return x0, x0 - s, x0 + t
  E = np.array([one() for _ in range(k)], dtype=np.float32 if f32 else np.float64)
  x0, a, b = (E[:, i].reshape(() if n == -1 else (n,)) for i in range(3))
  return x0, a, b


def points(r, x0, a, b, count):
  """Points of the box: corners, faces, x0, and random ones."""
  out = [x0]
  for k in range(count):
    q = r.random()
    w = np.array([r.choice([0., 1.]) if q < .35 else r.random() if q < .8 else r.choice([0., 1., .5, .25]) for _ in range(x0.size)]).reshape(x0.shape)
    out.append(np.clip((a + w * (b - a)).astype(x0.dtype), a, b))
  return out
