"""Shared machinery of the checks: runs drivers against /repo, runs TLC, turns verdicts into exit codes.

A check is a sequence of stages.  A *driver* (vf/drivers/*.py, run under the repository's Python) calls the
real code and records what it did as JSON traces; a *TLC stage* evaluates a specification module on a trace
(or explores a model).  All verdicts are computed by TLC; this file only collects them.
"""
import glob, hashlib, json, os, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
PY = '/opt/venv/bin/python'
TLA = '/opt/veriftools/tla'
JARS = [f'{TLA}/tla2tools.jar', f'{TLA}/CommunityModules-deps.jar']
CLASSES = f'{HERE}/build/classes'


class Machinery(Exception):
  pass


def build_java():
  """Compiles the arithmetic behind RealField.tla (again, if its sources changed)."""
  srcs = sorted(glob.glob(f'{HERE}/java/autobound/*.java'))
  digest = hashlib.sha256(b''.join(open(s, 'rb').read() for s in srcs)).hexdigest()
  stamp = f'{CLASSES}/.stamp'
  if os.path.exists(stamp) and open(stamp).read() == digest:
    return
  tmp = f'{HERE}/build/classes.{os.getpid()}'
  os.makedirs(tmp, exist_ok=True)
  subprocess.run(['javac', '-nowarn', '-cp', ':'.join(JARS), '-d', tmp] + srcs, check=True)
  open(f'{tmp}/.stamp', 'w').write(digest)
  shutil.rmtree(CLASSES, ignore_errors=True)
  try:
    os.rename(tmp, CLASSES)
  except OSError:                      # another check was faster
    shutil.rmtree(tmp, ignore_errors=True)


def jax_cache():
  d = f'{HERE}/build/jaxcache'
  os.makedirs(d, exist_ok=True)
  if len(os.listdir(d)) > 60000:
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d, exist_ok=True)
  return d


class Check:

  def __init__(self, pid):
    self.pid = pid
    self.tier = os.environ.get('VERIF_TIER', 'quick')
    self.thorough = self.tier == 'thorough'
    self.seed = int(os.environ.get('VERIF_SEED', '1'))
    self.t0 = time.time()
    self.work = f'{HERE}/build/run/{pid}.{os.getpid()}'
    shutil.rmtree(self.work, ignore_errors=True)
    os.makedirs(self.work)
    self.states = self.transitions = self.traces = self.points = 0
    self.stages, self.samples, self.bad, self.assumptions = [], [], [], []
    self.notes = {}
    self.keep = False
    build_java()

  # -- running the implementation -------------------------------------------
  def drive(self, driver, name='trace', shards=1, timeout=600, **params):
    """Runs vf.drivers.<driver> on `shards` processes; each writes <work>/<name>.<k>.json.  Returns the paths."""
    procs = []
    env = dict(os.environ, PYTHONPATH=f'{REPO}:{HERE}', PYTHONDONTWRITEBYTECODE='1', JAX_PLATFORMS='cpu',
               PYTHONHASHSEED='0', TF_CPP_MIN_LOG_LEVEL='3', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1',
               XLA_FLAGS='--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1', PYTHONWARNINGS='ignore')
    env.pop('JAX_ENABLE_X64', None)
    # Compiled operations are shared by the processes (the key is the operation itself, so this cannot hide a change in /repo).
    env.update(JAX_COMPILATION_CACHE_DIR=jax_cache(), JAX_PERSISTENT_CACHE_MIN_COMPILE_TIME_SECS='0', JAX_PERSISTENT_CACHE_MIN_ENTRY_SIZE_BYTES='-1')
    t = time.time()
    def start(k, **more):
      args = dict(params, pid=self.pid, tier=self.tier, seed=self.seed, shard=k, shards=shards, out=outs[k], t0=t, **more)
      log = open(f'{self.work}/{name}.{k}.log', 'a')
      procs.append(subprocess.Popen([PY, '-m', f'vf.drivers.{driver}', json.dumps(args)], env=env, cwd=self.work,
                                    stdout=log, stderr=subprocess.STDOUT))
      return procs[-1]
    def run(k):
      p, crashes = start(k), 0
      while True:
        try:
          p.wait(timeout=max(1, timeout - (time.time() - t)))
        except subprocess.TimeoutExpired:
          return f'driver {driver} timed out'
        if p.returncode == 0: return crashes
        crashes += 1
        # JAX's compiler aborted: go on after the case.
        if p.returncode not in (-6, -9, -11) or crashes > 3 or not os.path.exists(f'{outs[k]}.part'):
          return f'driver {driver} failed (rc {p.returncode}):\n' + open(f'{self.work}/{name}.{k}.log').read()[-6000:]
        p = start(k, resume=int(open(f'{outs[k]}.at').read()))
    outs = [f'{self.work}/{name}.{k}.json' for k in range(shards)]
    try:
      with ThreadPoolExecutor(shards) as pool:
        results = list(pool.map(run, range(shards)))
    finally:
      for p in procs:
        p.kill()
    for result in results:
      if isinstance(result, str): raise Machinery(result)
    if any(results): self.assumptions.append(f'{sum(results)} cases were lost because the XLA compiler aborted')
    self.stages.append(f'driver {driver} {time.time()-t:.1f}s')
    return outs

  # -- running TLC -----------------------------------------------------------
  def tlc(self, module, cfg=None, env=None, args=(), workers=8, timeout=800, heap='6g', expect_violation=False):
    """Runs TLC; returns its output.  Any error (other than an expected invariant violation) is a machinery failure."""
    cfg = cfg or module
    t = time.time()
    meta = f'{self.work}/meta.{len(self.stages)}.{module}.{os.urandom(3).hex()}'
    cmd = ['java', '-XX:+UseParallelGC', f'-Xmx{heap}', '-Xss64m', '-Djava.io.tmpdir=' + self.work,
           '-Dtlc2.overrides.TLCOverrides=tlc2.overrides.TLCOverrides:autobound.Overrides',
           '-Dtlc2.tool.queue.IStateQueue=MemStateQueue',
           '-cp', ':'.join([CLASSES] + JARS), 'tlc2.TLC', '-metadir', meta, '-noGenerateSpecTE',
           '-workers', str(workers), '-fp', '0', '-config', f'{cfg}.cfg', *args, f'{module}.tla']
    e = dict(os.environ, **{k: str(v) for k, v in (env or {}).items()})
    try:
      r = subprocess.run(cmd, cwd=f'{HERE}/spec', env=e, capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
      raise Machinery(f'TLC on {module} timed out')
    out = r.stdout
    m = re.search(r'(\d+) states generated, (\d+) distinct states found', out)
    if m:
      self.transitions += int(m.group(1))
      self.states += int(m.group(2))
    self.stages.append(f'TLC {module} {time.time()-t:.1f}s' + (f' {m.group(2)} states' if m else ''))
    if expect_violation:
      if 'is violated' not in out:
        raise Machinery(f'TLC did not refute {module}/{cfg}:\n{out[-2000:]}')
    elif r.returncode != 0:
      raise Machinery(f'TLC failed on {module} (rc {r.returncode}):\n{out[-6000:]}\n{r.stderr[-1000:]}')
    return out

  def model(self, module, cfg=None, **kw):
    """Exhaustively checks a model (no implementation involved)."""
    out = self.tlc(module, cfg, **kw)
    if not kw.get('expect_violation') and 'No error has been found' not in out and 'simulat' not in out.lower():
      raise Machinery(out[-3000:])
    return out

  def judge(self, module, traces, cfg=None, env=None, **kw):
    """Evaluates a trace specification on recorded traces; every case gets exactly one verdict line from TLC."""
    cases = []
    for f in traces:
      cases += json.load(open(f))
    if not cases:
      raise Machinery('empty trace')
    merged = f'{self.work}/cases.{len(self.stages)}.json'
    with open(merged, 'w') as f:
      json.dump(cases, f)
    verdicts = f'{self.work}/verdicts.{len(self.stages)}.ndjson'
    self.tlc(module, cfg, env=dict(env or {}, TRACE=merged, VERDICTS=verdicts), **kw)
    seen = {}
    for line in open(verdicts):
      v = json.loads(line)
      seen[v['c']] = v
    if sorted(seen) != list(range(1, len(cases) + 1)):
      raise Machinery(f'{module}: {len(seen)} verdicts for {len(cases)} cases')
    self.traces += len(cases)
    for c, case in enumerate(cases, 1):
      v = seen[c]
      self.points += v['n']
      if v['bad']:
        self.bad.append(dict(module=module, clauses=v['bad'], case=case))
    self.samples.extend(json.dumps(c)[:600] for c in cases[::max(1, len(cases) // 3)][:3])
    return cases, seen

  # -- outcome ---------------------------------------------------------------
  def finish(self, rule, level='model_checking'):
    known = load_known(self.pid)
    fresh, listed = [], []
    for b in self.bad:
      tag = b['case'].get('tag', b['case'].get('id', ''))
      k = next((k for k in known if k['tag'] == tag and set(b['clauses']) <= set(k['clauses'])), None)
      (listed if k else fresh).append((b, k))
    for k in known:
      if any(x[1] is k for x in listed):
        print(f"KNOWN-FINDING: property={self.pid} {k['what']}")
    if self.points == 0:
      raise Machinery('vacuous: no clause was evaluated')
    ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level=level,
              coverage=dict(states=self.states, transitions=self.transitions, traces_validated_against_impl=self.traces,
                            evaluations=self.points, rule=rule, samples=self.samples[:8] or ['(none)'],
                            stages=self.stages, **self.notes),
              assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=len(fresh))
    os.makedirs(f'{HERE}/evidence', exist_ok=True)
    with open(f'{HERE}/evidence/{self.pid}.json', 'w') as f:
      json.dump(ev, f, indent=1)
    if fresh:
      d = f'{HERE}/build/replay/{self.pid}'
      shutil.rmtree(d, ignore_errors=True)
      os.makedirs(d)
      for i, (b, _) in enumerate(fresh[:20]):
        json.dump(b, open(f'{d}/{i}.json', 'w'), indent=1)
      kinds = {}
      for b, _ in fresh:
        for c in b['clauses']:
          kinds[c] = kinds.get(c, 0) + 1
      print(f'{len(fresh)} cases violate {self.pid}: {kinds}')
      print('first case:', json.dumps(fresh[0][0])[:1500])
      print(f'VIOLATION property={self.pid} replay=build/replay/{self.pid}/0.json')
    print(f'{self.pid}: {self.traces} traces, {self.points} clause evaluations, {self.states} states, '
          f'{time.time()-self.t0:.1f}s; ' + '; '.join(self.stages))
    if not self.keep:
      shutil.rmtree(self.work, ignore_errors=True)
    return 1 if fresh else 0


def load_known(pid):
  out = []
  for line in open(f'{HERE}/known_findings.txt'):
    if line.startswith('known:'):
      k = json.loads(line[len('known:'):])
      if k['property'] == pid:
        out.append(k)
  return out


def main(checks):
  pid = sys.argv[1]
  chk = None
  try:
    chk = Check(pid)
    chk.keep = '--keep' in sys.argv
    sys.exit(checks[pid](chk))
  except Machinery as e:
    print('CHECK ERROR:', e)
    if chk and not chk.keep:
      shutil.rmtree(chk.work, ignore_errors=True)
    sys.exit(2)
