"""Records answers of autobound.elementwise_functions and autobound.primitive_enclosures."""
import functools
import numpy as np
import jax
jax.config.update('jax_enable_x64', True)
import jax.numpy as jnp
from vf.drivers import util
from autobound import elementwise_functions as ef, primitive_enclosures as pe
from autobound import enclosure_arithmetic as ea, interval_arithmetic as ia, polynomials as pl

IDS = dict(abs=ef.ABS, exp=ef.EXP, log=ef.LOG, sigmoid=ef.SIGMOID, softplus=ef.SOFTPLUS, swish=ef.SWISH)
ENCLOSURES = dict(abs=pe.abs_enclosure, exp=pe.exp_enclosure, log=pe.log_enclosure, sigmoid=pe.sigmoid_enclosure,
                  softplus=pe.softplus_enclosure, swish=pe.swish_enclosure)
NAMES = ['abs', 'exp', 'log', 'sigmoid', 'softplus', 'swish', 'sigmoid', 'softplus', 'swish']
DEGREES = dict(abs=1, exp=6, log=6, sigmoid=4, softplus=5, swish=4, pow=6)
POWERS = [-3, -2, -1, -.5, .5, 1.5, 2, 3, 4, 5, 6, 2.5, -1.5, 1, 1 / 3, 0]
MORE_POWERS = [-4, -5, -6, -7, -2.5, -3.5, 7, 8, 9, 3.5, 4.5, 5.5, .25, .75, -.25, -1 / 3, 2 / 3, 10, 1.25, 2.003, 1.01, -1.004, 3.0005, 2.9996, .01]
SPECIAL = [0., 1.278464542761074, 2.3993572805154675, 3.435840993535111, 4.429235100557228, 1.0319582417807491, 5.400818739495216,
           1.8197756117250128, 6.3619922836816905, 2.5062894864027525, .7177419231465666, 1.3169578969248168, 2.2924316695611777,
           3.1443184061549303, .8426329481293766]


def backend(r): return jnp if r.random() < .1 else np
def nums(a): return [util.num(v) for v in np.asarray(a, dtype=np.float64).ravel()]


def point(r, f, far=True):
  k = r.random()
  x = (r.gauss(0, 2) if k < .4 else r.uniform(-8, 8) if k < .6 else r.choice(SPECIAL) * r.choice([1, -1]) + r.choice([0, 1e-3, -1e-3, .25, -.25]) if k < .85
       else float(r.randint(-6, 6)) if k < .95 or not far else r.uniform(-60, 60))
  if f in ('log', 'pow+'): x = abs(x) + r.choice([.01, .1, .5])
  return x


def asarr(np_like, v, f32=False):
  return np_like.asarray(np.asarray(v, dtype=np.float32 if f32 else np.float64))


def c07(r):
  kind = r.choice(['deriv', 'deriv', 'taylor', 'range', 'range', 'range', 'mono', 'mono', 'data'])
  f = r.choice(NAMES + (['tanh'] if r.random() < .1 else []))
  k = r.randint(0, DEGREES.get(f, 2) + (1 if r.random() < .15 else 0))
  return facts(r, kind, f, k)


def facts(r, kind, f, k):
  np_like = backend(r)
  fid = IDS.get(f, ef.FunctionId(f)).derivative_id(k)
  t = dict(kind=kind, f=f, k=k, p='#1e0', f32=False)
  def go():
    w = r.choice([None, 4, 8])
    def batch():
      v = [point(r, f) for _ in range(w or 1)]
      return v
    if kind == 'deriv':
      x = asarr(np_like, batch() if w else batch()[0])
      t.update(x=nums(x), y=nums(ef.get_function(fid, np_like)(x)))
    elif kind == 'taylor':
      x = asarr(np_like, batch() if w else batch()[0])
      t['n'] = n = r.randint(0, max(0, DEGREES.get(f, 2) - k))
      cs = ef.get_taylor_polynomial_coefficients(fid, n, x, np_like)
      cs = [np.broadcast_to(np.asarray(c, dtype=np.float64), x.shape).ravel() for c in cs]
      t.update(x=nums(x), y=[[util.num(c[j]) for c in cs] for j in range(x.size)])
    elif kind in ('range', 'mono'):
      a, b = batch(), batch()
      a, b = [min(u, v) for u, v in zip(a, b)], [u if r.random() < .1 else max(u, v) for u, v in zip(a, b)]
      b = [max(u, v) for u, v in zip(a, b)]
      a, b = (asarr(np_like, a), asarr(np_like, b)) if w else (asarr(np_like, a[0]), asarr(np_like, b[0]))
      t.update(a=nums(a), b=nums(b))
      if kind == 'range':
        lo, hi = ef.get_range(fid, (a, b), np_like)
        t.update(lo=nums(lo), hi=nums(hi))
      else:
        dec, inc = ef.get_function_data(fid).monotone_over((a, b), np_like)
        t.update(dec=[bool(v) for v in np.ravel(dec)], inc=[bool(v) for v in np.ravel(inc)])
    else:
      d = ef.get_function_data(fid)
      t.update(minima=nums(d.local_minima), maxima=nums(d.local_maxima), dec=bool(d.monotonically_decreasing), inc=bool(d.monotonically_increasing),
               even=bool(d.even_symmetric))
    return True
  t.setdefault('n', 0)
  status, e = util.guarded(go)
  t['status'] = status
  if status != 'ok': t['error'] = str(e)
  return t


def entry_region(r, f, p, f32):
  """(x0, a, b) with x0 in the domain and in [a, b]."""
  natural = f == 'pow' and p >= 0 and float(p).is_integer()
  integral = f == 'pow' and float(p).is_integer()
  while True:
    x0 = point(r, f if f == 'log' else 'pow+' if f == 'pow' and (not integral or (not natural and r.random() < .5)) else '', not f32)
    if f == 'pow' and integral and not natural and abs(x0) < .05: continue
    if f32 and abs(x0) > 8: continue
    break
  def step():
    k = r.random()
    return 0. if k < .15 else r.uniform(.1, 3) if k < .6 else r.choice([.125, .5, 1, 2]) if k < .8 else r.uniform(3, 12) if k < .9 or f32 else 10**r.uniform(-6, -1)
  a, b = x0 - step(), x0 + step()
  if r.random() < .15:                     # an end at a special point
    s = r.choice(SPECIAL) * r.choice([1, -1]) if f in ('sigmoid', 'softplus', 'swish') else 0.
    if s < x0 - .1: a = s
    if s > x0 + .1: b = s
  if (f == 'log' or (f == 'pow' and not natural)) and r.random() < .75:
    # Most often the region is inside the domain.
    if x0 > 0: a = max(a, x0 * r.choice([.05, .25, .5, 1.]))
    else: b = min(b, x0 * r.choice([.05, .25, .5, 1.]))
  return x0, a, b


def call(f, p, x0, region, k, np_like):
  if f == 'pow': return pe.pow_enclosure(p, x0, region, k, np_like)
  return ENCLOSURES[f](x0, region, k, np_like)


# Cases that exhibit the capped divisor of the last coefficient (see known_findings.txt).
CAPPED = [('log', 1, 5, .011, .009665, 1.23), ('pow', 4, 3, 0., 0., 1.48e-6)]


def capped_case(i):
  f, p, k, x0, a, b = CAPPED[i]
  cs = call(f, p, np.float64(x0), (np.float64(a), np.float64(b)), k, np)
  c = [[util.num(v) for v in (u if isinstance(u, tuple) else (u, u))] for u in cs]
  return dict(kind='enclosure', f=f, p=util.num(p), k=k, f32=False, status='ok', mark=True, tag=f'capped-divisor-{i}',
              e=[dict(x0=util.num(x0), a=util.num(a), b=util.num(b), c=c)])


def c08(r):
  f = r.choice(NAMES + ['pow', 'pow', 'pow', 'pow'])
  p = r.choice(POWERS if r.random() < .6 else MORE_POWERS) if f == 'pow' else 1
  if f == 'pow' and float(p).is_integer() and r.random() < .5: p = float(p)
  k = r.randint(0, DEGREES[f] + (1 if r.random() < .05 else 0))
  f32 = r.random() < .1
  np_like = backend(r)
  w = r.choice([None, None, 2, 6])
  t = dict(kind='enclosure', f=f, p=util.num(p), k=k, f32=f32, mark=False)
  E = [entry_region(r, f, p, f32) for _ in range(w or 1)]
  X0, A, B = [asarr(np_like, [e[i] for e in E] if w else E[0][i], f32) for i in range(3)]
  A, B = np_like.minimum(A, X0), np_like.maximum(B, X0)
  def go():
    cs = call(f, p, X0, (A, B), k, np_like)
    def flat(v): return np.broadcast_to(np.asarray(v, dtype=np.float64), np.shape(X0)).ravel()
    rows = [(flat(c[0]), flat(c[1])) if isinstance(c, tuple) else (flat(c), flat(c)) for c in cs]
    x0, a, b = (np.asarray(v, dtype=np.float64).ravel() for v in (X0, A, B))
    t['e'] = [dict(x0=util.num(x0[j]), a=util.num(a[j]), b=util.num(b[j]), c=[[util.num(lo[j]), util.num(hi[j])] for lo, hi in rows]) for j in range(len(x0))]
    t['plain'] = [not isinstance(c, tuple) for c in cs]
    return True
  status, e = util.guarded(go)
  t['status'] = status
  if status != 'ok': t['error'] = str(e)
  return t


# -- C10 ----------------------------------------------------------------------
def leaves(v):
  return [np.asarray(x, dtype=np.float64) for x in jax.tree_util.tree_leaves(v)]


def flatten(v):
  L = leaves(v)
  return [list(x.shape) for x in L], [util.num(u) for x in L for u in x.ravel()]


def magnitude(v):
  return max([1e-30] + [float(np.max(np.abs(np.where(np.isfinite(x), x, 0.)))) for x in leaves(v) if x.size])


def compare(kind, first_run, second_run, mag=None, **info):
  t = dict(kind=kind, f32=False, **info)
  def go():
    a, b = first_run(), second_run()
    t['sx'], t['x'] = flatten(a)
    t['sy'], t['y'] = flatten(b)
    t['m'] = util.num((magnitude([a, b]) if mag is None else mag([a, b])))
    return True
  s, e = util.guarded(go)
  t['status'] = s
  if s != 'ok': t['error'] = str(e)
  return t


def stack(rows, shape):
  """Puts results for single elements back into arrays of the given shape."""
  if isinstance(rows[0], tuple): return tuple(stack([row[i] for row in rows], shape) for i in range(len(rows[0])))
  return np.array([np.asarray(v, dtype=np.float64) for v in rows]).reshape(shape)


def spread(v, shape):
  if isinstance(v, tuple): return tuple(spread(u, shape) for u in v)
  return np.broadcast_to(np.asarray(v, dtype=np.float64), shape)


def c10(r):
  kind = r.choice(['enclosure', 'enclosure', 'enclosure', 'range', 'mono', 'interval', 'interval', 'arith', 'arith', 'eval', 'taylor'])
  both = r.random() < .5 or kind in ('interval', 'arith', 'eval')
  f = r.choice(NAMES + ['pow', 'pow'])
  p = r.choice(POWERS)
  if kind in ('enclosure', 'range', 'mono', 'taylor'):
    if kind != 'enclosure' and f == 'pow': f = 'swish'
    k = r.randint(0, DEGREES[f])
    shape = r.choice([(), (3,), (5,), (2, 2)])
    n = int(np.prod(shape, dtype=int))
    E = []
    while len(E) < n:
      x0, a, b = entry_region(r, f, p, False)
      a, b = (x0 if x0 - a < .1 else a), (x0 if b - x0 < .1 else b)
      if f in ('log', 'pow') and not (a > 0.04 or (f == 'pow' and float(p).is_integer() and (p >= 0 or b < -.04))): continue
      E.append((x0, a, b))
    X0, A, B = [np.array([e[i] for e in E]).reshape(shape) for i in range(3)]
    def run(np_like, x0, a, b, shape):
      x0, a, b = np_like.asarray(x0), np_like.asarray(a), np_like.asarray(b)
      if kind == 'enclosure': v = tuple(call(f, p, x0, (a, b), k, np_like))
      else:
        fid = IDS[f].derivative_id(k)
        if kind == 'range': v = tuple(ef.get_range(fid, (a, b), np_like))
        elif kind == 'mono': v = tuple(ef.get_function_data(fid).monotone_over((a, b), np_like))
        else: v = tuple(ef.get_taylor_polynomial_coefficients(IDS[f], k, x0, np_like))
      return spread(v, shape)
    def mag(v):
      # The last coefficient is a quotient by at least 0.1**k.
      base = magnitude([v, call(f, p, X0, (X0, X0), 0, np), call(f, p, A, (A, A), 0, np), call(f, p, B, (B, B), 0, np)])
      return base * (100 if kind == 'enclosure' else 1)
    first = lambda: run(np, X0, A, B, shape)
    if both: second = lambda: run(jnp, X0, A, B, shape)
    else: second = lambda: stack([run(np, x, a, b, ()) for x, a, b in zip(X0.ravel(), A.ravel(), B.ravel())], shape)
    return compare(kind + (' backends' if both else ' elements'), first, second, mag, f=f, p=util.num(p), k=k)
  # The rest of the library, with both back ends.
  def value(): return r.choice([r.randint(-8, 8) / 4, r.uniform(-2, 2), 0.])
  def arr(shape): return np.array([value() for _ in range(int(np.prod(shape, dtype=int)))]).reshape(shape)
  def itv(shape):
    a, b = arr(shape), arr(shape)
    return (np.minimum(a, b), np.maximum(a, b))
  def operand(shape): return itv(shape) if r.random() < .7 else arr(shape)
  conv = lambda v, np_like: jax.tree_util.tree_map(np_like.asarray, v)
  if kind == 'interval':
    op = r.choice(['add', 'subtract', 'multiply', 'power', 'negative', 'outer_power', 'outer_product', 'tensordot', 'bilinear'])
    shape = r.choice([(), (2,), (3,), (2, 2)])
    a, b = operand(shape), operand(shape)
    e = r.randint(0, 4)
    def run(np_like):
      s = ia.IntervalArithmetic(np_like)
      x, y = conv(a, np_like), conv(b, np_like)
      if op in ('add', 'subtract', 'multiply'): return getattr(s, op)(x, y)
      if op == 'power': return s.power(x, e)
      if op == 'negative': return s.negative(x)
      if op == 'outer_power': return s.outer_power(x, min(e, 3))
      if op == 'outer_product': return s.outer_product(x, y, 0)
      if op == 'tensordot': return s.tensordot(x, y, len(shape))
      return s.arbitrary_bilinear(x, y, lambda u, v: np_like.tensordot(u, v, min(len(shape), 1)))
    return compare('interval ' + op, lambda: run(np), lambda: run(jnp), f='', p='#0e0', k=e)
  sx = r.choice([(), (2,), (1,)])
  batch = r.choice([(), (2,)])
  n, m = r.randint(1, 3), r.randint(1, 3)
  E1 = tuple(operand(batch + i * sx) if i == n - 1 else arr(batch + i * sx) for i in range(n))
  E2 = tuple(operand(batch + i * sx) if i == m - 1 else arr(batch + i * sx) for i in range(m))
  tr = itv(sx)
  D = r.randint(1, 4)
  if kind == 'eval':
    op = r.choice(['enclose', 'eval', 'eval elementwise'])
    z = tr if r.random() < .5 else tr[0]
    def run(np_like):
      x = conv(E1, np_like)
      if op == 'enclose': return tuple(ea.enclose_enclosure(x, conv(tr, np_like), min(D, n), np_like))
      if op == 'eval': return pl.eval_taylor_enclosure(x, conv(z, np_like), np_like)
      return pl.eval_elementwise_taylor_enclosure(tuple(conv(arr_, np_like) for arr_ in E0), conv(z0, np_like), np_like)
    E0, z0 = tuple(operand(batch) for _ in range(n)), operand(batch)
  else:
    op = r.choice(['add', 'subtract', 'multiply', 'power', 'negative', 'exp', 'divide', 'root'])
    e = r.randint(0, 3)
    if op == 'divide': E2 = (4 + np.abs(E2[0] if not isinstance(E2[0], tuple) else E2[0][0]),) + tuple(jax.tree_util.tree_map(lambda v: v * .1, c) for c in E2[1:])
    if op in ('exp', 'root') and isinstance(E1[0], tuple): E1 = (E1[0][0],) + E1[1:]
    if op == 'root': E1 = (4 + np.abs(E1[0]),) + tuple(jax.tree_util.tree_map(lambda v: v * .1, c) for c in E1[1:])
    def run(np_like):
      s = ea.TaylorEnclosureArithmetic(D, conv(tr, np_like), np_like)
      x, y = conv(E1, np_like), conv(E2, np_like)
      if op in ('add', 'subtract', 'multiply', 'divide'): return tuple(getattr(s, op)(x, y))
      if op == 'power': return tuple(s.power(x, e))
      if op == 'root': return tuple(s.power(x, .5))
      if op == 'negative': return tuple(s.negative(x))
      return tuple(s.get_elementwise_fun(pe.exp_enclosure)(x))
  # Quotients by small widths are computed with large errors by exp and powers.
  return compare(kind + ' ' + op, lambda: run(np), lambda: run(jnp), (lambda v: magnitude(v) * 1e4) if op in ('exp', 'divide', 'root') else None,
                 f='', p='#0e0', k=D)


def main():
  pid = util.ARGS['pid']
  out = []
  todo = []
  if pid == 'C07':
    for f in list(IDS) + ['tanh']:
      for k in range(0, 9):
        for kind in ('deriv', 'taylor', 'range', 'mono', 'data'):
          todo.append(lambda r, f=f, k=k, kind=kind: facts(r, kind, f, k))
  if pid == 'C08': todo += [lambda r, i=i: capped_case(i) for i in range(len(CAPPED))]
  gen = dict(C07=c07, C08=c08, C09=c08, C10=c10)[pid]
  for k in range(util.ARGS['count']):
    todo.append(gen)
  for k, g in enumerate(todo):
    if util.mine(k):
      case = dict(id=k)
      case.update(g(util.rng('elementwise', pid, k)))
      out.append(case)
  util.finish(out)


main()
