"""Records calls of autobound.polynomials with formal, tropical, real and interval coefficients."""
import numpy as np
import jax
jax.config.update('jax_enable_x64', True)
import jax.numpy as jnp
from vf.drivers import util
from autobound import polynomials as pl, interval_arithmetic as ia


class Formal:
  """A formal polynomial in indeterminates; deliberately without operators."""
  def __init__(self, terms): self.terms = {m: c for m, c in terms.items() if c}


class Operators(Formal):
  def __add__(self, o): return type(self)(fadd(self, lift(o, self)).terms)
  __radd__ = __add__
  def __mul__(self, o): return type(self)(fmul(self, lift(o, self)).terms)
  __rmul__ = __mul__
  def __pow__(self, k): return type(self)(fpow(self, k).terms)


def lift(o, like):
  if isinstance(o, Formal): return o
  n = len(next(iter(like.terms))) if like.terms else 1
  return Formal({(0,) * n: o})


def fadd(a, b):
  t = dict(a.terms)
  for m, c in b.terms.items(): t[m] = t.get(m, 0) + c
  return Formal(t)


def fmul(a, b):
  t = {}
  for m, c in a.terms.items():
    for q, d in b.terms.items():
      k = tuple(x + y for x, y in zip(m, q)); t[k] = t.get(k, 0) + c * d
  return Formal(t)


def fpow(a, k):
  n = len(next(iter(a.terms))) if a.terms else 1
  r = Formal({(0,) * n: 1})
  for _ in range(k): r = fmul(r, a)
  return r


def grade(a): return {sum(j * e for j, e in enumerate(m)) for m in a.terms}


def formal_power(n, e, operators):
  cls = Operators if operators else Formal
  a = [cls({tuple(int(x == j) for x in range(n)): 1}) for j in range(n)]
  zero, one = cls({}), cls({(0,) * n: 1})
  book = []
  if operators:
    r = pl.integer_power(a, e)
    r = [lift(c, a[0]) for c in r]
  else:
    def prod(c0, c1, i, j):
      if not (grade(c0) <= {i} and grade(c1) <= {j}): book.append(['product', i, j])
      return fmul(c0, c1)
    def power(c, i, k):
      if not grade(c) <= {i} or k < 0: book.append(['power', i, k])
      return fpow(c, k)
    def scale(k, c):
      if k < 1: book.append(['scale', k])
      return Formal({m: k * x for m, x in c.terms.items()})
    r = pl.integer_power(tuple(a), e, fadd, zero, one, prod, power, scale)
  return dict(n=n, e=e, book=not book, r=[[[list(m), int(c)] for m, c in sorted(x.terms.items())] for x in r])


def formal_bilinear(n, m, operators):
  """Coefficients are words: op(a_i, b_j) = a_i b_j does not commute."""
  class Word:
    def __init__(self, t): self.t = t
    if operators:
      def __add__(self, o): return self if isinstance(o, int) and o == 0 else add(self, o)
      __radd__ = __add__
      def __mul__(self, o): return mul(self, o)
  def add(x, y):
    t = dict(x.t)
    for w, k in y.t.items(): t[w] = t.get(w, 0) + k
    return Word(t)
  def mul(x, y):
    return Word({u + v: p * q for u, p in x.t.items() for v, q in y.t.items()})
  a = [Word({(('a', i),): 1}) for i in range(n)]
  b = [Word({(('b', j),): 1}) for j in range(m)]
  book = []
  if operators:
    r = pl.arbitrary_bilinear(a, b)
  else:
    def prod(x, y, i, j):
      if list(x.t) != [(('a', i),)] or list(y.t) != [(('b', j),)]: book.append([i, j])
      return mul(x, y)
    r = pl.arbitrary_bilinear(tuple(a), b, add, Word({}), prod)
  out = []
  for c in r:
    terms = []
    for w, k in sorted(c.t.items()):
      ok = len(w) == 2 and w[0][0] == 'a' and w[1][0] == 'b'
      terms.append([w[0][1], w[1][1], k] if ok else [-1, -1, k])
    out.append(terms)
  return dict(n=n, m=m, book=not book, r=out)


def formal_eval(n, operators):
  """sum_i inner(c_i, outer_power(z, i)), with abstract inner product and power."""
  book = []
  def inner(c, p):
    return {(c, p): 1}
  def power(z, i):
    if z != 'z' or i < 1: book.append(i)
    return ('z', i)
  def add(x, y):
    t = dict(x)
    for k, v in y.items(): t[k] = t.get(k, 0) + v
    return t
  r = pl.eval_polynomial([('c', i) for i in range(n)], 'z', inner, power, add, {}, ('z', 0))
  return dict(n=n, book=not book, r=[[k[0][1], k[1][1], v] for k, v in sorted(r.items())])


NEG = -1000000
tmul = lambda a, b: NEG if NEG in (a, b) else a + b


def run(kind, r):
  if kind == 'formal_power':
    n = r.randint(1, 4)
    return formal_power(n, r.randint(0, 6 if n < 4 else 4), r.random() < .4)
  if kind == 'formal_bilinear':
    return formal_bilinear(r.randint(1, 5), r.randint(1, 5), r.random() < .4)
  if kind == 'formal_eval':
    return formal_eval(r.randint(0, 6), False)
  if kind == 'tropical_power':
    p = [r.choice([NEG, 0, 0, r.randint(-9, 9)]) for _ in range(r.randint(1, 4))]
    e = r.randint(0, 5)
    return dict(p=p, e=e, r=list(map(int, pl.integer_power(p, e, max, NEG, 0, lambda a, b, i, j: tmul(a, b),
                                       lambda c, i, k: 0 if k == 0 else NEG if c == NEG else k * c, lambda k, c: c))))
  if kind == 'tropical_bilinear':
    p, q = ([r.choice([NEG, r.randint(-9, 9)]) for _ in range(r.randint(1, 5))] for _ in range(2))
    return dict(p=p, q=q, r=list(map(int, pl.arbitrary_bilinear(p, q, max, NEG, lambda a, b, i, j: tmul(a, b)))))
  value = lambda: r.choice([r.randint(-12, 12) / 4, r.randint(-3, 3), r.uniform(-2, 2)])
  np_like = r.choice([np, jnp])
  if kind in ('real_power', 'real_bilinear', 'real_eval'):
    w = r.choice([0, 1, 3])           # 0: plain numbers
    def coef(): return value() if w == 0 else np_like.asarray([value() for _ in range(w)])
    els = lambda cs: [[util.num(np.asarray(c).ravel()[j] if np.ndim(c) else c) for c in cs] for j in range(max(w, 1))]
    p = [coef() for _ in range(r.randint(1, 5))]
    q = [coef() for _ in range(r.randint(1, 5))]
    e = r.randint(0, 5)
    if kind == 'real_power':
      if r.random() < .4 and w == 0:
        p, e = [r.randint(-3, 3) for _ in range(r.randint(1, 2))], r.randint(0, 20)
      if w == 0:
        res = pl.integer_power(p, e)
      else:
        res = pl.integer_power(p, e, np_like.add, np_like.zeros(w), np_like.ones(w), lambda a, b, i, j: a * b, lambda c, i, j: c**j, np_like.multiply)
      return dict(p=els(p), e=e, r=els(res))
    if kind == 'real_bilinear':
      return dict(p=els(p), q=els(q), r=els(pl.arbitrary_bilinear(p, q)))
    z = coef()
    res = [pl.eval_polynomial(p, z, lambda a, b: a * b, lambda a, i: a**i), pl.eval_elementwise_taylor_enclosure(p, z, np_like)]
    if w == 0:
      res.append(pl.eval_taylor_enclosure(p, z, np_like))
    return dict(p=els(p), z=els([z]), r=els(res))
  arith = ia.IntervalArithmetic(np_like)
  def interval():
    a, b = value(), value()
    k = r.random()
    if k < .2: a = 0.
    if k > .8: b = a
    return (min(a, b), max(a, b))
  # A plain number among the intervals is an interval of one point for the specification.
  num2 = lambda c: [util.num(c[0]), util.num(c[1])] if isinstance(c, tuple) else [util.num(c)] * 2
  coef = lambda: interval() if r.random() < .75 else value()
  p = [coef() for _ in range(r.randint(1, 4))]
  q = [coef() for _ in range(r.randint(1, 4))]
  if kind == 'interval_power':
    e = r.randint(0, 2 if len(p) > 2 and r.random() < .5 else 4)
    res = pl.integer_power(p, e, arith.add, np_like.asarray(0), np_like.asarray(1), lambda a, b, i, j: arith.multiply(a, b),
                           lambda c, i, j: arith.power(c, j), arith.multiply)
    return dict(p=[num2(c) for c in p], e=e, r=[num2(c) for c in res])
  res = pl.arbitrary_bilinear(p, q, arith.add, np_like.asarray(0), lambda a, b, i, j: arith.multiply(a, b))
  return dict(p=[num2(c) for c in p], q=[num2(c) for c in q], r=[num2(c) for c in res])


KINDS = ['formal_power', 'formal_bilinear', 'formal_eval', 'tropical_power', 'tropical_bilinear', 'real_power', 'real_bilinear', 'real_eval',
         'interval_power', 'interval_power', 'interval_bilinear']


def main():
  out = []
  todo = []
  # Every length and exponent with formal coefficients, then random problems.
  for n in range(1, 5):
    for e in range(0, 7 if n < 4 else 6):
      for ops in (False, True):
        todo.append(('formal_power', lambda r, n=n, e=e, ops=ops: formal_power(n, e, ops)))
  for n in range(1, 7):
    todo.append(('formal_eval', lambda r, n=n: formal_eval(n, False)))
    for m in range(1, 7):
      for ops in (False, True):
        todo.append(('formal_bilinear', lambda r, n=n, m=m, ops=ops: formal_bilinear(n, m, ops)))
  for k in range(util.ARGS['count']):
    kind = KINDS[k % len(KINDS)]
    todo.append((kind, lambda r, kind=kind: run(kind, r)))
  for k, (kind, f) in enumerate(todo):
    if util.mine(k):
      status, r = util.guarded(lambda: f(util.rng('poly', k)))
      case = dict(kind=kind, status=status, id=k)
      case.update(r if status == 'ok' else dict(error=str(r)))
      out.append(case)
  util.finish(out)


main()
