"""Records results of autobound.jax.jax_bound.taylor_bounds for generated programs."""
import numpy as np
import jax
import jax.numpy as jnp
from vf.drivers import lang, util, wrap
from autobound.jax import jax_bound

ARGS = util.ARGS
PID = ARGS.get('pid')


def x64(on): jax.config.update('jax_enable_x64', on)
def nums(a): return [util.num(v) for v in np.asarray(a, dtype=np.float64).ravel()]


def bounds_at(bound, xs, reuse=False):
  """The bounds at xs; reuse: the points are written one after another to the same array."""
  if reuse:
    out, buffer = [], np.array(xs[0])
    for x in xs:
      buffer[...] = x
      out.append(dict(lo=nums(bound.lower(buffer)), hi=nums(bound.upper(buffer))))
    return out
  return [dict(lo=nums(bound.lower(x)), hi=nums(bound.upper(x))) for x in xs]


def run(f, D, x0, region, xs, propagate=False, reuse=False):
  """A result record: status, coefficients, bounds at points."""
  def go():
    kw = dict(propagate_trust_regions=True) if propagate else {}
    bound = jax_bound.taylor_bounds(f, D, **kw)(x0, region)
    return bound, dict(status='ok', E=[util.coef(c) for c in bound.coefficients], pts=bounds_at(bound, xs, reuse))
  status, v = util.guarded(go, 60)
  if status != 'ok': return None, dict(status=status, error=str(v), E=[], pts=[])
  return v


def refusable(P, D):
  """Documented limits: abs has no enclosures of degree 2 or more, sigmoid and swish none of degree 5 or more."""
  ops = {nd['op'] for nd in P['nodes']}
  return ('abs' in ops and D >= 2) or (D >= 5 and bool(ops & {'sigmoid', 'swish'})) or (D >= 6 and 'softplus' in ops)


def affordable(P, D, rare):
  """A composition forms enclosures of degree D^2, with n^(D^2) elements, before they are truncated."""
  return P['n'] <= 1 or P['n']**(D * D) <= (100000 if rare else 700)


def problem(r, P, f32=None, degrees=(0, 1, 2, 2, 3, 3, 4, 5), wide=.1):
  f32 = r.random() < .12 if f32 is None else f32
  if P['prof'] == 'model':                               # emitted by MC_Bounding, with degree and region
    x64(True)
    P = lang.fill(r, dict(P, nodes=[dict(nd) for nd in P['nodes']]))
    return P, P['D'], np.float64(P['x0']), np.float64(P['a']), np.float64(P['b']), False
  x64(not f32)
  P = lang.fill(r, dict(P, nodes=[dict(nd) for nd in P['nodes']]), f32)
  rare = r.random() < (1 if util.THOROUGH else .06)
  D = r.choice([d for d in degrees if affordable(P, d, rare)])
  if any(nd['op'] == 'abs' for nd in P['nodes']) and r.random() < .9: D = min(D, 1)
  if any(nd['op'] in ('sigmoid', 'swish') for nd in P['nodes']) and r.random() < .9: D = min(D, 4)
  x0, a, b = lang.region(r, P['n'], f32, wide)
  return P, D, x0, a, b, f32


def base(P, D, x0, a, b, f32, **kw):
  return dict(P=lang.export(P), D=D, x0=nums(x0), a=nums(a), b=nums(b), f32=f32, mayrefuse=refusable(P, D), **kw)


def soundness(r, P):
  P, D, x0, a, b, f32 = problem(r, P)
  xs = [x0, a, b] + lang.points(r, x0, a, b, 5)
  prop = r.random() < .2
  f = lang.build(P)
  q = r.random()
  args = (x0, (a, b)) if q < .7 or f32 else (float(x0), (float(a), float(b))) if q < .8 and x0.ndim == 0 else (jnp.asarray(x0), (jnp.asarray(a), jnp.asarray(b)))
  _, res = run(f, D, args[0], args[1], xs, prop)
  return base(P, D, x0, a, b, f32, r=res, xs=[nums(x) for x in xs], prop=prop)


def form(r, P):
  P, D, x0, a, b, f32 = problem(r, P)
  outside = [(np.asarray(a) - 1).astype(x0.dtype), (np.asarray(b) + .5).astype(x0.dtype)] if r.random() < .5 else []
  xs = [x0, a, b] + lang.points(r, x0, a, b, 3)
  bound, res = run(lang.build(P), D, x0, (a, b), xs + outside, r.random() < .2, r.random() < .3)
  t = base(P, D, x0, a, b, f32, r=res, xs=[nums(x) for x in xs + outside])
  if bound is not None:
    def call(x):
      v = bound(x)
      return util.coef(tuple(v) if isinstance(v, tuple) else v)
    t.update(calls=[call(x) for x in xs + outside], final=util.coef(tuple(bound.final_interval())), x0back=nums(bound.x0),
             aback=nums(bound.x_trust_region[0]), bback=nums(bound.x_trust_region[1]))
  return t


def directions(r, n):
  if n == -1: return [[util.num(1)]]
  units = [[float(i == j) for j in range(n)] for i in range(n)]
  return [[util.num(v) for v in d] for d in units + [[r.choice([1., -1., 2., .5, -.25]) for _ in range(n)] for _ in range(n + 1)]]


def taylor(r, P):
  P, D, x0, a, b, f32 = problem(r, P, f32=r.random() < .06)
  _, res = run(lang.build(P), D, x0, (a, b), [x0], r.random() < .2)
  return base(P, D, x0, a, b, f32, r=res, xs=[nums(x0)], vs=directions(r, P['n']))


def polynomial(r, P):
  f32 = r.random() < .06
  deg = P['deg']
  P, _, x0, a, b, f32 = problem(r, P, f32, wide=.3)
  D = max(deg, r.randint(deg, 5 if P['n'] <= 1 else max(deg, 3))) if P['prof'] != 'model' else P['D']
  _, a2, b2 = lang.region(r, P['n'], f32, .3)
  a2, b2 = np.minimum(a2, x0), np.maximum(b2, x0)
  f = lang.build(P)
  xs = [x0, a, b] + lang.points(r, x0, a, b, 2)
  on = r.random() < .2
  _, res = run(f, D, x0, (a, b), xs, on)
  _, res2 = run(f, D, x0, (a2, b2), [], on)
  return base(P, D, x0, a, b, f32, r=res, r2=res2, xs=[nums(x) for x in xs], vs=directions(r, P['n']))


def propagation(r, P):
  P, D, x0, a, b, f32 = problem(r, P, degrees=(1, 1, 2, 2, 3, 4, 5, 0))
  f = lang.build(P)
  xs = [x0, a, b] + lang.points(r, x0, a, b, 4)
  _, off = run(f, D, x0, (a, b), xs, False)
  _, on = run(f, D, x0, (a, b), xs, True)
  return base(P, D, x0, a, b, f32, r=off, r2=on, xs=[nums(x) for x in xs])


H = [.05, 2**-8, 2**-6, 2**-5, 2**-4, 2**-3]


def shrinking(r, P):
  P, D, x0, a, b, f32 = problem(r, P, f32=False)
  f = lang.build(P)
  def part(end):
    q = r.random()
    return end if q < .2 else x0 if q < .35 else x0 + (end - x0) * r.choice([.5, .25, .9, r.random()])
  a2, b2 = part(a), part(b)
  xs = [x0, a2, b2] + lang.points(r, x0, a2, b2, 3)
  on = r.random() < .3
  _, big = run(f, D, x0, (a, b), xs, on)
  _, small = run(f, D, x0, (a2, b2), xs, on)
  ws = []
  for j in range(3):
    h = H[D] / 4**j
    bound, res = run(f, D, x0, (x0 - h, x0 + h), [], on)
    ws.append(dict(h=util.num(h), E=res['E']))
  return base(P, D, x0, a, b, f32, r=big, r2=small, xs=[nums(x) for x in xs], ws=ws)


def wrapping(r, P):
  P, D, x0, a, b, f32 = problem(r, P)
  on = r.random() < .2
  _, res = run(lang.build(P), D, x0, (a, b), [], on)
  inner = r.random() < .35 and D <= 2 and len(P['nodes']) <= 8   # (compiling higher degrees takes very long)
  g, how = (wrap.system if P['prof'] == 'inline' else wrap.wrapped)(r, P)
  if inner and r.random() < .3: g = lang.build(P)
  if not inner:
    _, res2 = run(g, D, x0, (a, b), [], on)
  else:                                                  # the bounding itself is compiled
    def go():
      kw = dict(propagate_trust_regions=True) if on else {}
      E = jax.jit(lambda x, lo, hi: tuple(jax_bound.taylor_bounds(g, D, **kw)(x, (lo, hi)).coefficients))(x0, a, b)
      return dict(status='ok', E=[util.coef(c) for c in E], pts=[])
    status, v = util.guarded(go, 60)
    if status == 'timeout': return None
    res2 = v if status == 'ok' else dict(status=status, error=str(v), E=[], pts=[])
  return base(P, D, x0, a, b, f32, r=res, r2=res2, xs=[], how=dict(how, inner=inner))


KINDS = dict(C11=soundness, C12=soundness, C13=form, C14=taylor, C15=polynomial, C16=propagation, C18=wrapping, C25=shrinking)


def main():
  out, k = [], 0
  for path in ARGS['programs']:
    for P in lang.load(path):
      if util.mine(k):
        case = KINDS[PID](util.rng('bounds', PID, k), P)
        if case is not None: case.update(id=k, prof=P['prof'])
        if util.collect(out, case): break
      k += 1
  x64(False)
  util.finish(out)


if __name__ == '__main__':
  main()
