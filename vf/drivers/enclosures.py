"""Records operations on Taylor enclosures (autobound.enclosure_arithmetic, polynomials, types)."""
import functools
import numpy as np
import jax
jax.config.update('jax_enable_x64', True)
import jax.numpy as jnp
from vf.drivers import util
from autobound import enclosure_arithmetic as ea, interval_arithmetic as ia, polynomials as pl, primitive_enclosures as pe

SX = [(), (), (), (1,), (2,), (2,), (3,), (2, 2), (1, 2)]
BATCH = [(), (), (), (1,), (2,), (3,), (2, 2), (2, 1)]
PAIRS = [((), ()), ((), ()), ((2,), (2,)), ((2,), ()), ((), (3,)), ((2, 2), (2,)), ((2, 1), (1, 3)), ((1,), (2,)), ((3,), (1,)), ((2, 1), (2,))]
MATS = [('ij', 'jk', 'ik', (2, 2), (2, 1)), ('ij', 'j', 'i', (2, 3), (3,)), ('i', 'ij', 'j', (2,), (2, 2)), ('i', 'i', '', (3,), (3,)),
        ('i', 'j', 'ij', (2,), (2,)), ('bij', 'bjk', 'bik', (2, 1, 2), (2, 2, 1)), ('ij', 'ij', 'i', (2, 2), (2, 2)), ('ij', 'ji', '', (2, 2), (2, 2))]
EVALS = {}


def value(r, scale=1.0):
  return scale * r.choice([r.randint(-8, 8) / 4, r.randint(-2, 2), r.uniform(-2, 2), 0.0])


def array(r, shape, scale=1.0, f=value):
  return np.array([f(r, scale) for _ in range(int(np.prod(shape, dtype=int)))]).reshape(shape)


def interval(r, shape, scale=1.0):
  a, b = array(r, shape, scale), array(r, shape, scale)
  m = np.array([r.random() < .2 for _ in range(a.size)]).reshape(shape)
  return np.minimum(a, b), np.where(m, np.minimum(a, b), np.maximum(a, b))


def region(r, sx, scale=1.):
  """Interval of displacements."""
  kind = r.choice(['in', 'in', 'in', 'right', 'left', 'mixed', 'point', 'off'])
  n = int(np.prod(sx, dtype=int))
  lo, hi = [], []
  for _ in range(n):
    u, v = r.choice([.25, .5, 1., 1.5, r.uniform(.1, 1.5)]), r.choice([.25, .5, 1., r.uniform(.1, 1.5)])
    k = r.choice(['in', 'right', 'left', 'point']) if kind == 'mixed' else kind
    a, b = dict(**{'in': (-u, v)}, right=(0., v), left=(-u, 0.), point=(0., 0.), off=(u, u + v))[k]
    lo.append(a * scale); hi.append(b * scale)
  return np.array(lo).reshape(sx), np.array(hi).reshape(sx)


def scales(r):
  """(scale of the region, scale of each coefficient): usually 1, else far from it or such that all terms have similar sizes."""
  if r.random() < .75: return 1., [1.] * 8
  s = 10.**r.randint(-4, 4)
  if r.random() < .5: return s, [s**-i * r.choice([1., 1., 1e-3]) for i in range(8)]
  return s, [10.**r.randint(-8, 4) for _ in range(8)]


def enclosure(r, sx, batch, n, intervals='last', first=None, scale=1.0, each=None):
  """n coefficients; `intervals` says which may be intervals."""
  out = []
  for i in range(n):
    s = batch + i * sx
    iv = dict(none=False, last=(i == n - 1) and r.random() < .7, any=r.random() < .5, notfirst=i > 0 and r.random() < .5)[intervals]
    if i == 0 and first is not None:
      c = first(s)
    else:
      k = scale * (each[i] if each else 1) / (1 if not sx else np.sqrt(np.prod(sx)))
      c = interval(r, s, k) if iv else array(r, s, k)
    out.append(c)
  return tuple(out)


def convert(r, e, python=True):
  """Numbers in the various forms in which they can be passed (JAX less often, because it is slow)."""
  style = r.choice(8 * ['np'] + ['py' if python else 'np', 'py' if python else 'np', 'jnp'])
  def one(x):
    if style == 'jnp': return jnp.asarray(x)
    if style == 'py' and np.ndim(x) == 0:
      return int(x) if float(x).is_integer() and r.random() < .5 else float(x)
    return np.asarray(x)
  return tuple(tuple(map(one, c)) if isinstance(c, tuple) else one(c) for c in e), (jnp if style == 'jnp' or r.random() < .02 else np)


def enc(e): return [util.coef(c) for c in e]
DUMMY = [dict(iv=False, s=[], lo=['#0e0'], hi=['#0e0'])]


def box(tr):
  return dict(lo=[util.num(v) for v in np.ravel(tr[0])], hi=[util.num(v) for v in np.ravel(tr[1])])


def size(batch, sx, n): return int(np.prod(batch, dtype=int)) * int(np.prod(sx, dtype=int))**n


def c04(r):
  sx, batch = r.choice(SX), r.choice(BATCH)
  n = r.randint(1, 5)
  while size(batch, sx, n - 1) > 64: n -= 1
  which = r.choice(['truncate', 'truncate', 'eval', 'eval', 'elementwise'])
  if which == 'elementwise':
    # Elementwise enclosures: coefficients and z broadcast against each other.
    sz, sa = r.choice(PAIRS)
    a = tuple(interval(r, sa) if r.random() < .5 else array(r, sa) for _ in range(n))
    z = interval(r, sz) if r.random() < .5 else array(r, sz)
    (ca, np_like) = convert(r, a)
    v = pl.eval_elementwise_taylor_enclosure(ca, z, np_like)
    return dict(op='eval elementwise', a=enc(a), z=util.coef(z), v=util.coef(v), sx=[])
  scale, each = scales(r)
  a = enclosure(r, sx, batch, n, r.choice(['none', 'last', 'any']), each=each)
  ca, np_like = convert(r, a)
  if which == 'eval':
    tr = region(r, sx, scale)
    iv = r.random() < .5
    z = tr if iv else tuple([tr[0] + (tr[1] - tr[0]) * r.choice([0, .25, .5, 1])])[0]
    v = pl.eval_taylor_enclosure(ca, z, np_like)
    zz = z if iv else (z, z)
    return dict(op='eval', a=enc(a), sx=list(sx), v=util.coef(v), z=dict(iv=iv, **box(zz)))
  D = r.randint(0, max(n - 1, 0) + (1 if r.random() < .2 else 0))
  tr = region(r, sx, scale)
  res = ea.enclose_enclosure(ca, tr, D, np_like)
  return dict(op='truncate', a=enc(a), sx=list(sx), tr=box(tr), D=D, r=enc(res))


def pairwise_einsum(la, lb, lo, np_like):
  def f(u, v, p, q):
    I, J = 'uvwxyz'[:p], 'UVWXYZ'[:q]
    return np_like.einsum(f'{la}{I},{lb}{J}->{lo}{I}{J}', u, v)
  return f


def pairwise_multiply(np_like):
  def f(u, v, p, q):
    u, v = np_like.asarray(u), np_like.asarray(v)
    u = u.reshape(u.shape + (1,) * q)
    v = v.reshape(v.shape[:v.ndim - q] + (1,) * p + v.shape[v.ndim - q:])
    return u * v
  return f


def c05(r, exact=False):
  op = r.choice(['add', 'subtract', 'multiply', 'multiply', 'power', 'power', 'matmul', 'negative', 'compose'] + ([] if exact else ['divide', 'power', 'compose']))
  sx = r.choice(SX)
  D = r.randint(0, 5)
  kind = 'none' if exact else r.choice(['none', 'last', 'last', 'any'])
  labels = dict(la=[], lb=[], lo=[])
  if op == 'matmul':
    la, lb, lo, sa, sb = r.choice(MATS)
    labels = dict(la=list(la), lb=list(lb), lo=list(lo))
  elif op in ('add', 'subtract', 'multiply', 'divide'):
    sa, sb = r.choice(PAIRS)
  else:
    sa, sb = r.choice(BATCH), ()
  na, nb = r.randint(1, min(D, 3) + 1 + (r.random() < .3)), r.randint(1, min(D, 3) + 1 + (r.random() < .3))
  if sx:
    na, nb = min(na, 3), min(nb, 3)
  if not sx and r.random() < .3:
    na, nb = r.randint(1, D + 3), r.randint(1, D + 3)
    na, nb = min(na, 5), min(nb, 5)
  while size(sa, sx, min(D, na + nb)) > 150 or size(sb, sx, min(D, na + nb)) > 150:
    if na >= nb: na -= 1
    else: nb -= 1
    if na + nb <= 3: D = min(D, 2); break
  extra = dict(int=True, p=0, pr='#0e0', fun='', fc=[])
  p = None
  scale, each = scales(r) if op in ('add', 'subtract', 'multiply', 'matmul', 'negative') or (op == 'power' and exact) else (1., None)
  tr = region(r, sx, scale)
  b = None
  if op == 'power':
    p = r.choice([0, 1, 2, 2, 3, 4, 5] if exact else [0, 1, 2, 3, 3, 4, -1, -1, -2, .5, 1.5, -.5, 2.5, 2.0, 3.0])
    if sx and int(np.prod(sx)) > 2 and p > 3: p = 3
    if (sx or exact) and p > 1:
      na = min(na, 3)
    extra.update(int=float(p).is_integer(), p=int(p) if float(p).is_integer() else 0, pr=util.num(p))
  partial = p is not None and (p < 0 or not float(p).is_integer())
  if op == 'power' and partial:
    sign = -1 if float(p).is_integer() and r.random() < .4 else 1
    first = lambda s: sign * (2.5 + .25 * np.abs(array(r, s)))
    if D == 0:
      first = lambda s: (lambda c: (c, c + .25))(sign * (2.5 + .25 * np.abs(array(r, s)))) if r.random() < .5 else sign * (2.5 + .25 * np.abs(array(r, s)))
    a = enclosure(r, sx, sa, na, kind if kind in ('none', 'last') else 'notfirst', first=first, scale=r.choice([.1, .3, .6]))
    if D > 0 and isinstance(a[0], tuple): a = (a[0][0],) + a[1:]
  elif op == 'compose':
    a = enclosure(r, sx, sa, na, kind if kind == 'none' else 'notfirst', first=lambda s: array(r, s))
  else:
    a = enclosure(r, sx, sa, na, kind, each=each)
  if op == 'divide':
    sign = r.choice([1, -1])
    b = enclosure(r, sx, sb, nb, r.choice(['none', 'notfirst']), first=lambda s: sign * (3 + .25 * np.abs(array(r, s))), scale=r.choice([.1, .3, .6]))
  elif op in ('add', 'subtract', 'multiply', 'matmul'):
    b = enclosure(r, sx, sb, nb, kind, each=each)
    if op != 'matmul' and not isinstance(a[0], tuple) and r.random() < .1: b, sb, nb = a, sa, na
  ca, np_like = convert(r, a, not partial and op != 'divide')
  cb, np_b = convert(r, b, op != 'divide') if b is not None else (None, np)
  if np_b is jnp: np_like = jnp
  if b is a: cb = ca                       # one object for two functions
  arith = ea.TaylorEnclosureArithmetic(D, tr, np_like)
  if op in ('add', 'subtract', 'multiply', 'divide'): res = getattr(arith, op)(ca, cb)
  elif op == 'negative': res = arith.negative(ca)
  elif op == 'power': res = arith.power(ca, p)
  elif op == 'matmul': res = arith.arbitrary_bilinear(ca, cb, pairwise_einsum(''.join(labels['la']), ''.join(labels['lb']), ''.join(labels['lo']), np_like))
  else:
    extra['fun'] = 'poly' if exact else r.choice(['poly', 'exp', 'square'])
    if extra['fun'] == 'poly':
      m = r.randint(1, 3)
      s = sa if r.random() < .5 else ()
      fc = tuple(interval(r, s) if not exact and (k == m - 1 or D == 0) and r.random() < .5 else array(r, s) for k in range(m))
      extra['fc'] = enc(fc)
      res = arith.compose_enclosures(fc, ca)
    elif extra['fun'] == 'exp':
      res = arith.get_elementwise_fun(pe.exp_enclosure)(ca)
    else:
      res = arith.get_elementwise_fun(functools.partial(pe.pow_enclosure, 2))(ca)
  return dict(op=op, a=enc(a), b=enc(b) if b is not None else DUMMY, sx=list(sx), tr=box(tr), D=D, r=enc(res), **labels, **extra)


def main():
  gen = {'C04': c04, 'C05': c05, 'C06': lambda r: c05(r, True)}[util.ARGS['pid']]
  out = []
  for k in range(util.ARGS['count']):
    if util.mine(k):
      status, v = util.guarded(lambda: gen(util.rng('enclosure', util.ARGS['pid'], k)))
      case = dict(id=k, status=status)
      case.update(v if status == 'ok' else dict(error=str(v)))
      out.append(case)
  util.finish(out)


main()
