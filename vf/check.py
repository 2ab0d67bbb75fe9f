"""Entry point: python3 vf/check.py <property>.  One function per property."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf import core

CHECKS = {}


def check(pid):
  def register(f):
    CHECKS[pid] = f
    return f
  return register


# -- graphs -------------------------------------------------------------------
def graph_cases(k, model, sims):
  exhaustive, simulated = f'{k.work}/exhaustive.ndjson', f'{k.work}/simulated.ndjson'
  k.model(*model, env=dict(CASES=exhaustive))
  k.tlc('GraphSim', env=dict(CASES=simulated), workers=1,
        args=['-simulate', f'num={sims}', '-depth', '60', '-seed', str(k.seed)])
  return [exhaustive, simulated]


@check('C21')
def c21(k):
  cases = graph_cases(k, ('MC_Match', 'MC_Match_thorough') if k.thorough else ('MC_Match',), 20000 if k.thorough else 3000)
  traces = k.drive('graph', shards=4, cases=cases, kind='match', limit=200000)
  k.judge('Trace_Graph', traces, env=dict(PROP='C21'))
  return k.finish('every pair of operation sequences up to the bounds of MC_Match (all ways to share variables), plus '
                  'instances, near misses and slices generated by simulating GraphSim; all are non-trivial')


def replace_check(k, pid):
  cases = graph_cases(k, ('MC_Replace', 'MC_Replace_thorough') if k.thorough else ('MC_Replace',), 30000 if k.thorough else 3000)
  k.model('MC_Replace', 'MC_Replace_unsafe', workers=1, expect_violation=True)
  k.model('MC_Replace', 'MC_Replace_unsafe2', workers=1, expect_violation=True)
  traces = k.drive('graph', shards=4, cases=cases, kind='replace', limit=200000)
  k.judge('Trace_Graph', traces, env=dict(PROP=pid))
  return k.finish('every subject graph up to the bounds of MC_Replace for 23 pattern/replacement pairs, plus larger problems '
                  'generated by simulating GraphSim')


@check('C22')
def c22(k): return replace_check(k, 'C22')


@check('C23')
def c23(k): return replace_check(k, 'C23')


# -- intervals ----------------------------------------------------------------
def interval_check(k, pid):
  cases = f'{k.work}/cases.ndjson'
  k.model('MC_Interval', 'MC_Interval_thorough' if k.thorough else None, env=dict(CASES=cases))
  traces = k.drive('intervals', shards=8, cases=cases, limit=60000 if k.thorough else 12000, random=40000 if k.thorough else 8000, both=k.thorough)
  k.judge('Trace_Interval', traces, 'Trace_Interval_thorough' if k.thorough else None, env=dict(PROP=pid))
  return k.finish('pairs of operands enumerated by MC_Interval (all sign patterns and positions relative to zero, scalars and '
                  'vectors of length two), and random operands of larger shapes; NumPy and JAX back ends')


@check('C01')
def c01(k): return interval_check(k, 'C01')


@check('C02')
def c02(k): return interval_check(k, 'C02')


@check('C03')
def c03(k):
  k.model('MC_Poly', 'MC_Poly_thorough' if k.thorough else None)
  traces = k.drive('polys', shards=8, count=60000 if k.thorough else 12000)
  k.judge('Trace_Poly', traces)
  return k.finish('powers, products and values of polynomials: all small lengths and exponents with formal coefficients (an identity '
                  'between formal polynomials), random ones with tropical, real, array and interval coefficients')


# -- enclosures ---------------------------------------------------------------
N_ENC = dict(C04=12000, C05=5000, C06=8000)


def enclosure_check(k, n):
  traces = k.drive('enclosures', shards=8, count=n * (10 if k.thorough else 1))
  k.judge('Trace_Enclosure', traces, 'Trace_Enclosure_thorough' if k.thorough else None, env=dict(PROP=k.pid))


@check('C04')
def c04(k):
  enclosure_check(k, N_ENC[k.pid])
  return k.finish('random enclosures (1 to 5 coefficients, scalar, vector and matrix displacements, batch shapes, plain and interval '
                  'coefficients) and regions (around, beside, touching and away from zero); members and displacements sampled by the specification')


@check('C05')
def c05(k):
  enclosure_check(k, N_ENC[k.pid])
  return k.finish('random pairs of enclosures and regions for every operation, degrees 0 to 5, with values and displacements sampled by the specification')


@check('C06')
def c06(k):
  enclosure_check(k, N_ENC[k.pid])
  return k.finish('random pairs of enclosures with plain coefficients for every operation, degrees 0 to 5; the exact multivariate '
                  'polynomial is computed by the specification')


# -- elementwise functions ----------------------------------------------------
def elementwise_check(k, n):
  traces = k.drive('elementwise', shards=8, count=n * (10 if k.thorough else 1))
  k.judge('Trace_Elementwise', traces, 'Trace_Elementwise_thorough' if k.thorough else None, env=dict(PROP=k.pid))


@check('C07')
def c07(k):
  k.model('MC_Extrema')
  elementwise_check(k, 12000)
  return k.finish('every function and derivative order, including unsupported ones; random and special points and intervals. MC_Extrema proves that '
                  'the critical points used by the oracle are all (cover of the real line, interval arithmetic)')


@check('C08')
def c08(k):
  elementwise_check(k, 16000)
  return k.finish('random functions, exponents, degrees, reference points and regions (inside, touching and crossing the end of the domain, '
                  'degenerate, one-sided, tiny, wide, ending at critical points); the specification evaluates at about 20 points of each region')


@check('C09')
def c09(k):
  elementwise_check(k, 16000)
  return k.finish('the same enclosures as C08: lower coefficients, sharpness where the derivative is monotone, comparison with the range of the derivative')


@check('C10')
def c10(k):
  elementwise_check(k, 10000)
  return k.finish('the same computation on an array and on each element, and with NumPy and with JAX, for every part of the library with a back end')


# -- bounds on programs -------------------------------------------------------
def programs(k, **profiles):
  """Has LangSim generate programs; profiles: name=(number, minimal length, maximal length)."""
  from concurrent.futures import ThreadPoolExecutor
  def one(item):
    (name, (num, lo, hi)), i = item
    path = f'{k.work}/programs.{name}.ndjson'
    k.tlc('LangSim', env=dict(CASES=path, PROFILE=name.split('_')[0], MINLEN=lo, MAXLEN=hi), workers=1,
          args=['-simulate', f'num={num * (10 if k.thorough else 1)}', '-depth', '60', '-seed', str(k.seed * 100 + i)])
    return path
  with ThreadPoolExecutor(4) as pool:
    return list(pool.map(one, zip(profiles.items(), range(100))))


def sample(k, path, num, keep=lambda P: True):
  """A random part of the cases that a model has emitted, as a file for the driver."""
  import json, random
  out = path.replace('.ndjson', '.sample.ndjson')
  lines = sorted(line for line in open(path) if keep(json.loads(line)))
  with open(out, 'w') as f: f.writelines(random.Random(k.seed).sample(lines, min(len(lines), num * (20 if k.thorough else 1))))
  os.remove(path)
  return out


def bounds_check(k, driver='bounds', module='Trace_Bounds', model=0, keep=lambda P: True, more=[], **profiles):
  more = list(more)
  if model:                                              # programs that MC_Bounding examines
    full = f'{k.work}/modelled.ndjson'
    k.model('MC_Bounding', 'MC_Bounding_thorough' if k.thorough else None, env=dict(CASES=full))
    k.model('MC_Bounding', 'MC_Bounding_loose', expect_violation=True)
    more.append(sample(k, full, model, keep))
  traces = k.drive(driver, shards=8, timeout=20000 if k.thorough else 800, programs=programs(k, **profiles) + more)
  k.judge(module, traces, env=dict(PROP=k.pid), timeout=20000 if k.thorough else 800)


MODELLED = ('A sample of all programs of up to two (thorough: three) operations that MC_Bounding, the model of the bounding algorithm, examines, '
            'with its degrees and regions. ')
GENERATED = ('programs generated by TLC from LangSim (every supported operation, sharing, idioms that keep partial functions defined or not); '
             'random constants, reference points, regions (one-sided, degenerate, narrow, wide), degrees 0-5, 12 percent single precision. ')


@check('C11')
def c11(k):
  bounds_check(k, scalar=(1200, 1, 7), model=300)
  return k.finish(GENERATED + MODELLED + 'Functions of a scalar; the exact value at the ends of the region and six more points is compared with both bounds')


@check('C12')
def c12(k):
  bounds_check(k, vector=(750, 1, 6))
  return k.finish(GENERATED + 'Functions of vectors (length 1-3) with all structural operations; every output element at corners and interior points')


@check('C13')
def c13(k):
  bounds_check(k, scalar=(350, 1, 5), vector=(300, 1, 5), poly=(150, 1, 4))
  return k.finish(GENERATED + 'Coefficients, bounds, calls of the result, final interval, stored reference point and region')


@check('C14')
def c14(k):
  bounds_check(k, smooth=(800, 1, 6), vector=(500, 1, 5), model=150)
  return k.finish(GENERATED + MODELLED + 'The specification computes Taylor coefficients exactly along the unit directions and random ones')


@check('C15')
def c15(k):
  bounds_check(k, poly=(850, 1, 6), model=150, keep=lambda P: 0 < P['deg'] <= P['D'])
  return k.finish(GENERATED + MODELLED + 'Polynomial programs bounded at or above their degree over two regions')


@check('C16')
def c16(k):
  bounds_check(k, scalar=(360, 1, 6), vector=(240, 1, 5), model=200)
  return k.finish(GENERATED + MODELLED + 'Each is bounded with and without propagation')


@check('C17')
def c17(k):
  calls = f'{k.work}/calls.ndjson'
  k.model('MC_Calls', env=dict(CASES=calls))
  traces = k.drive('refuse', shards=8, timeout=20000 if k.thorough else 800, programs=programs(k, unsup=(400, 1, 6), user=(70, 1, 5)),
                   calls=calls, limit=3000 if k.thorough else 500)
  k.judge('Trace_Refuse', traces, env=dict(PROP='C17'), timeout=20000 if k.thorough else 800)
  return k.finish(GENERATED + 'One operation of about 60 without a rule, applied to a value that depends on the input or not; operations registered by '
                  'the user with the rule of another function; calls with valid and invalid arguments enumerated by MC_Calls')


@check('C18')
def c18(k):
  path = f'{k.work}/inline.ndjson'
  k.model('MC_Inline', 'MC_Inline_thorough' if k.thorough else None, env=dict(CASES=path, SEED=k.seed))
  k.model('MC_Inline', 'MC_Inline_unsafe', expect_violation=True)
  bounds_check(k, more=[sample(k, path, 150)], scalar=(300, 1, 7), vector=(260, 1, 6))
  return k.finish(GENERATED + 'A sample of the systems of compiled functions that MC_Inline, the model of inlining, examines. Random groups of operations nested in compiled functions (captured constants, pytree arguments, several and unused results, shared '
                  'helpers), constants computed by 16 kinds of unsupported operations, and bounding under compilation')


def distinguishing(k, path, out, num):
  """Appends sessions to out that are put together from shortest sessions which tell an incomplete key from a complete one."""
  import json, random
  r, groups = random.Random(k.seed), {}
  for line in sorted(open(path)):
    case = json.loads(line)
    groups.setdefault(case['missing'], []).append(case['events'])
  chosen = [events for name in sorted(groups) for events in r.sample(groups[name], min(num, len(groups[name])))]
  r.shuffle(chosen)
  with open(out, 'a') as f:
    for i in range(0, len(chosen), 6): f.write(json.dumps(dict(events=sum(chosen[i:i + 6], []))) + '\n')


@check('C19')
def c19(k):
  path = f'{k.work}/sessions.ndjson'
  k.tlc('SessionSim', env=dict(CASES=path), workers=1, args=['-simulate', f'num={800 if k.thorough else 80}', '-depth', '60', '-seed', str(k.seed)])
  k.model('MC_Sessions', 'MC_Sessions_unsafe', workers=1, expect_violation=True)
  pairs = f'{k.work}/pairs.ndjson'
  k.model('MC_Sessions', env=dict(CASES=pairs))
  distinguishing(k, pairs, path, 300 if k.thorough else 16)
  traces = k.drive('sessions', shards=8, timeout=20000 if k.thorough else 800, sessions=path)
  k.judge('Trace_Session', traces, timeout=20000 if k.thorough else 800)
  return k.finish('Sessions of 18 events generated by TLC from SessionSim: calls that differ in one respect from earlier ones (function object, degree, '
                  'propagation, shape, region, precision, compiled or not, held bounding functions), failures, registrations, precision switches, '
                  'edits, cleared caches; and sessions put together from those of MC_Sessions that tell a library which remembers results under an incomplete '
                  'key from a correct one. Each recorded session is validated step by step; every call is also made first in a fresh process')


@check('C20')
def c20(k):
  traces = k.drive('acts', shards=8, timeout=20000 if k.thorough else 800, programs=programs(k, act=(450, 1, 6)), misses=1500 if k.thorough else 300)
  k.judge('Trace_Bounds', traces, env=dict(PROP='C20'), timeout=20000 if k.thorough else 800)
  return k.finish(GENERATED + 'Programs rich in activation functions (nested, shared, compiled, vectorized; single and double precision, single precision while '
                  'double is enabled, casts) against the same programs with operations registered for the dedicated enclosures; look-alikes of the same '
                  'name inside the language, and 37 kinds outside of it')


@check('C24')
def c24(k):
  path = f'{k.work}/problems.ndjson'
  k.tlc('ProgSim', env=dict(CASES=path), workers=1, args=['-simulate', f'num={40000 if k.thorough else 4000}', '-depth', '60', '-seed', str(k.seed)])
  traces = k.drive('progs', shards=8, timeout=20000 if k.thorough else 800, programs=[path])
  k.judge('Trace_Prog', traces, timeout=20000 if k.thorough else 800)
  return k.finish('Problems generated by TLC from ProgSim: random patterns, replacements and called programs; subjects assembled from '
                  'instances, pieces, instances with one difference, and other operations. The specification scans, replaces and evaluates')


@check('C25')
def c25(k):
  bounds_check(k, smooth=(240, 1, 5), vector=(100, 1, 4), scalar=(50, 1, 5), model=60)
  return k.finish(GENERATED + MODELLED + 'Each is bounded over a region, a part of it, and three regions shrinking by a factor of 4')


if __name__ == '__main__':
  core.main(CHECKS)
