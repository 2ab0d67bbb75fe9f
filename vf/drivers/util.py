"""Helpers for drivers: exact encoding of floats, guarded calls, sharding."""
import json, math, os, random, signal, sys, time, zlib
import numpy as np

ARGS = json.loads(sys.argv[1]) if len(sys.argv) > 1 else {}
THOROUGH = ARGS.get('tier') == 'thorough'


def rng(*salt):
  """A generator that depends only on VERIF_SEED and the salt (not on the shard)."""
  return random.Random(zlib.crc32(repr((ARGS.get('seed', 1),) + salt).encode()))


def num(v):
  """Exact dyadic encoding of a float."""
  v = float(v)
  if math.isnan(v): return '#nan'
  if math.isinf(v): return '#inf' if v > 0 else '#-inf'
  m, e = math.frexp(v)
  m = int(m * (1 << 53)); e -= 53
  if m == 0: return '#0e0'
  t = (m & -m).bit_length() - 1
  return f'#{m >> t}e{e + t}'


def unnum(s):
  """Inverse of num() (for numbers emitted by TLC: midpoint of the bracket, rounded to a float)."""
  from fractions import Fraction
  def dy(x):
    m, e = x.split('e'); m, e = int(m), int(e)
    return Fraction(m) * (Fraction(2) ** e)
  s = s.lstrip('#')
  if s in ('nan', 'inf', '-inf'): return float(s)
  p = [dy(x) for x in s.split('~')]
  return float(sum(p) / len(p))


def arr(a):
  a = np.asarray(a, dtype=np.float64)
  return dict(s=list(a.shape), d=[num(v) for v in a.ravel()])


def coef(c):
  """A coefficient: {iv, s, lo, hi}."""
  if isinstance(c, tuple):
    lo, hi = np.asarray(c[0], dtype=np.float64), np.asarray(c[1], dtype=np.float64)
    if lo.shape != hi.shape:
      return dict(iv=True, s=['lo'] + list(lo.shape) + ['hi'] + list(hi.shape), lo=[], hi=[])
    return dict(iv=True, s=list(lo.shape), lo=[num(v) for v in lo.ravel()], hi=[num(v) for v in hi.ravel()])
  a = np.asarray(c, dtype=np.float64)
  d = [num(v) for v in a.ravel()]
  return dict(iv=False, s=list(a.shape), lo=d, hi=d)


T0 = ARGS.get('t0', time.time())


class Timeout(Exception):
  pass


def guarded(fn, seconds=20):
  """Returns ('ok', value) or (exception kind, message)."""
  def on_alarm(*_): raise Timeout()
  old = signal.signal(signal.SIGALRM, on_alarm)
  signal.alarm(seconds)
  try:
    return 'ok', fn()
  except Timeout:
    return 'timeout', ''
  except NotImplementedError as e:
    return 'notimpl', str(e)[:200]
  except RecursionError as e:
    return 'recursion', ''
  except Exception as e:  # pylint: disable=broad-except
    return type(e).__name__, str(e)[:300]
  finally:
    signal.alarm(0)
    signal.signal(signal.SIGALRM, old)


def held_memory():
  with open('/proc/self/statm') as f: return int(f.read().split()[1]) * 4096 >> 20


def free_memory(state={'limit': 1500}):
  """Drops compiled computations when the process has grown by a lot."""
  if held_memory() > state['limit']:
    import ctypes, gc, jax
    jax.clear_caches()
    gc.collect()
    ctypes.CDLL(None).malloc_trim(0)
    state['limit'] = max(1500, held_memory() + 700)
    if os.environ.get('VF_TIMES'): print('freed; now', held_memory(), flush=True)


def collect(out, case, state={'n': 0}):
  """Adds a case unless a computation in it ran out of time (a slow machine is no defect); True to stop: too many did."""
  free_memory()
  if case is None: return False
  if os.environ.get('VF_TIMES'): print(case.get('id'), round(time.time() - T0, 1), flush=True)
  late = any(isinstance(v, dict) and v.get('status') == 'timeout' for v in case.values())
  state['n'] += late
  if not late or state['n'] > 4:
    out.append(case)
    with open(ARGS['out'] + '.part', 'a') as f: f.write(json.dumps(case) + '\n')
  return state['n'] > 4 or out_of_time()


def out_of_time():
  """Whether a quick run should leave it at that (it takes at most 300 s on the machine for which it was designed)."""
  return not THOROUGH and time.time() - T0 > 480


# The compiler of JAX can end the process (failed assertions).  core.drive() then starts it again, and it goes on after that case.
CALLS = {'n': 0}


def mine(i):
  CALLS['n'] += 1
  if i % ARGS.get('shards', 1) != ARGS.get('shard', 0) or CALLS['n'] <= ARGS.get('resume', 0): return False
  with open(ARGS['out'] + '.at', 'w') as f: f.write(str(CALLS['n']))
  return True


def finish(cases):
  if ARGS.get('resume', 0): cases = [json.loads(line) for line in open(ARGS['out'] + '.part')]
  with open(ARGS['out'], 'w') as f:
    json.dump(cases, f)
