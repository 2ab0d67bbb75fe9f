"""Records calls of IntervalArithmetic: the problems TLC enumerated, and random ones with larger shapes."""
import json
import numpy as np
import jax
jax.config.update('jax_enable_x64', True)
import jax.numpy as jnp
from vf.drivers import util
from autobound import interval_arithmetic as ia


def real(a):
  """An operand for the specification."""
  return util.coef(a)


def call(case, np_like, style):
  arith = ia.IntervalArithmetic(np_like)
  def conv(x):
    if style == 'python' and x.ndim == 0:
      return float(x)
    if style == 'int' and np.all(x == np.round(x)):
      return np_like.asarray(x.astype(np.int64))
    return np_like.asarray(x)
  def operand(x):
    return tuple(conv(u) for u in x) if isinstance(x, tuple) else conv(x)
  a, b = operand(case['av']), operand(case['bv']) if case['bv'] is not None else None
  if case.get('same'):
    b = a                                  # one object for two independent operands
  op, m = case['op'], case['method']
  if m in ('add', 'subtract', 'multiply'):
    return getattr(arith, m)(a, b)
  if m == 'negative': return arith.negative(a)
  if m == 'power': return arith.power(a, case['k'])
  if m == 'outer_power': return arith.outer_power(a, case['k'], case['batch']) if case['batch'] else arith.outer_power(a, case['k'])
  if m == 'outer_product': return arith.outer_product(a, b, case['batch'])
  if m == 'tensordot': return arith.tensordot(a, b, case['axes'])
  if m == 'convolve': return arith.arbitrary_bilinear(a, b, lambda u, v: np_like.convolve(u, v))
  if m == 'einsum':
    eq = ''.join(case['la']) + ',' + ''.join(case['lb']) + '->' + ''.join(case['lo'])
    return arith.arbitrary_bilinear(a, b, lambda u, v: np_like.einsum(eq, u, v), case['product'])
  raise KeyError(m)


def run(case, backend, style):
  np_like = dict(numpy=np, jax=jnp)[backend]
  before = json.dumps([real(x) for x in (case['av'], case['bv']) if x is not None])
  status, r = util.guarded(lambda: call(case, np_like, style))
  if status == 'ok':
    try:
      r = util.coef(r)
    except Exception as e:
      status, r = 'unreadable', str(e)
  out = dict(op=case['op'], method=case['method'], backend=backend, style=style, status=status,
             a=real(case['av']), b=real(case['bv']) if case['bv'] is not None else real(np.zeros(())),
             k=case.get('k', 0), batch=case.get('batch', 0), la=case.get('la', []), lb=case.get('lb', []), lo=case.get('lo', []),
             product=case.get('product', False))
  if status == 'ok':
    out['r'] = r
  else:
    out['error'] = f'{status}: {r}'
  if before != json.dumps([real(x) for x in (case['av'], case['bv']) if x is not None]):
    out.update(status='arguments changed', error='arguments changed')
  return out


def replayed():
  """Problems enumerated by MC_Interval."""
  cases = [json.loads(line) for line in open(util.ARGS['cases'])]
  cases.sort(key=lambda c: json.dumps(c, sort_keys=True))
  r = util.rng('intervals')
  if len(cases) > util.ARGS['limit']:
    cases = r.sample(cases, util.ARGS['limit'])
  for c in cases:
    def val(o):
      p = np.array(o['p'], dtype=np.float64)
      lo, hi = (p[0, 0], p[0, 1]) if c['s'] == [] else (p[:, 0], p[:, 1])
      lo, hi = np.asarray(lo), np.asarray(hi)
      return (lo, hi) if o['iv'] else lo
    x = dict(op=c['op'], method=c['op'], av=val(c['a']), bv=val(c['b']), k=c['k'], batch=0)
    if c['op'] in ('negative', 'power', 'outer_power'):
      x['bv'] = None
    if c['op'] == 'dot':
      x.update(op='einsum', method='einsum', la=['i'], lb=['i'], lo=[], product=False)
    if c['op'] == 'outer_product':
      x.update(op='einsum', method='outer_product', la=['i'], lb=['j'], lo=['i', 'j'], product=True)
    if x['bv'] is not None and c['a'] == c['b']:
      x['same'] = r.random() < .5
    yield x


SHAPES = [(), (1,), (2,), (3,), (2, 3), (3, 1), (1, 3), (2, 1, 2), (2, 2, 3)]


def value(r, shape, iv):
  n = int(np.prod(shape))
  wide = r.random() < .2
  def one():
    k = r.random()
    if wide:
      return r.choice([-1, 1]) * r.random() * 10 ** r.randint(-12, 12)
    return r.randint(-16, 16) / 4 if k < .8 else 0.
  lo = [one() for _ in range(n)]
  if not iv:
    return np.array(lo).reshape(shape)
  hi = []
  for x in lo:
    k = r.random()
    hi.append(x if k < .15 else 0. if k < .25 else one())
  lo, hi = np.minimum(lo, hi), np.maximum(lo, hi)
  return (lo.reshape(shape), hi.reshape(shape))


def shape_of(v): return np.shape(v[0] if isinstance(v, tuple) else v)


EINSUMS = [('ij', 'jk', 'ik'), ('bij', 'bjk', 'bik'), ('ij', 'j', 'i'), ('i', 'ij', 'j'), ('ij', 'kj', 'ik'), ('ij', 'ij', ''),
           ('bi', 'bi', 'b'), ('ijk', 'k', 'ij'), ('ij', 'ij', 'i'), ('aib', 'ajb', 'ij')]
PRODUCTS = [('i', 'j', 'ij'), ('bi', 'bj', 'bij'), ('ij', 'ij', 'ij'), ('ij', 'k', 'ijk'), ('ij', 'ij', 'ji'), ('', 'i', 'i')]
DIMS = dict(i=2, j=3, k=2, b=2, a=2)


def random_cases(n):
  r = util.rng('random intervals')
  for _ in range(n):
    m = r.choice(['add', 'subtract', 'multiply', 'negative', 'power', 'outer_power', 'outer_product', 'tensordot', 'convolve', 'einsum', 'einsum'])
    iva, ivb = r.choice([(True, True), (True, False), (False, True), (True, True), (False, False)])
    c = dict(op=m, method=m, bv=None, batch=0)
    if m in ('add', 'subtract', 'multiply'):
      while True:
        s, t = r.choice(SHAPES), r.choice(SHAPES)
        try:
          np.broadcast_shapes(s, t); break
        except ValueError:
          pass
      c.update(av=value(r, s, iva), bv=value(r, t, ivb))
    elif m in ('negative', 'power'):
      c.update(av=value(r, r.choice(SHAPES), iva), k=r.randint(0, 7))
    elif m == 'outer_power':
      s = r.choice([(), (1,), (2,), (3,), (2, 2), (2, 3)])
      c.update(av=value(r, s, iva), k=r.randint(0, 4 if len(s) < 2 else 2), batch=r.randint(0, 1) if len(s) == 2 else 0)
    elif m == 'outer_product':
      s, t, batch = r.choice([((2,), (3,), 0), ((), (2,), 0), ((2, 2), (3,), 0), ((2, 3), (2, 2), 1), ((2, 3), (2, 3), 2), ((2,), (2,), 1),
                              ((2, 2), (2,), 1), ((), (), 0)])
      la = 'xyzw'[:len(s)]
      lb = la[:batch] + 'pqr'[:len(t) - batch]
      c.update(op='einsum', av=value(r, s, iva), bv=value(r, t, ivb), batch=batch, la=list(la), lb=list(lb), lo=list(la) + list(lb[batch:]), product=True)
    elif m == 'tensordot':
      s, t, axes = r.choice([((2,), (3,), 0), ((), (), 0), ((2, 3), (3, 2), 1), ((3,), (3,), 1), ((2, 3), (2, 3), 2), ((2, 2, 3), (2, 3), 2), ((2, 2), (), 0)])
      la = 'xyzw'[:len(s)]
      lb = la[len(s) - axes:] + 'pqr'[:len(t) - axes]
      lo = la[:len(s) - axes] + lb[axes:]
      c.update(op='einsum', av=value(r, s, iva), bv=value(r, t, ivb), axes=axes, la=list(la), lb=list(lb), lo=list(lo), product=axes == 0)
    elif m == 'convolve':
      c.update(av=value(r, (r.randint(1, 4),), iva), bv=value(r, (r.randint(1, 3),), ivb))
    else:
      product = r.random() < .4
      la, lb, lo = r.choice(PRODUCTS if product else EINSUMS)
      c.update(av=value(r, tuple(DIMS[x] for x in la), iva), bv=value(r, tuple(DIMS[x] for x in lb), ivb),
               la=list(la), lb=list(lb), lo=list(lo), product=product)
    if c['bv'] is not None and shape_of(c['av']) == shape_of(c['bv']) and r.random() < .2:
      c.update(bv=c['av'], same=True)
    yield c


def main():
  cases = list(replayed()) + list(random_cases(util.ARGS['random']))
  out = []
  for k, c in enumerate(cases):
    if util.mine(k):
      backends = ['numpy', 'jax'] if util.ARGS.get('both') else [['numpy', 'jax'][(k // util.ARGS['shards']) % 2]]
      for b in backends:
        out.append(run(c, b, ['array', 'python', 'int', 'array'][(k // 2) % 4]))
  util.finish(out)


main()
