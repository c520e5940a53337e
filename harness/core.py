"""Common machinery of the checks: running TLC, verdicts, evidence.

A check is a python module  harness/props/<family>.py  offering
    run(prop: str, ctx: Ctx) -> None
It uses ctx to run TLC on the specification (model checking), to run drivers
against the code in /repo (in sub-processes, with PYTHONPATH=/repo) and to
let TLC judge the recorded traces.  Verdicts are total: a trace specification
never gets stuck, it prints one line per event whose observation the
specification does not allow, naming the failed clauses.
"""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
PY = os.environ.get('VERIF_PY', '/opt/venv/bin/python')
SPEC = os.path.join(VERIF, 'spec')
EVID = os.path.join(VERIF, 'evidence')
KNOWN = os.path.join(VERIF, 'known_findings.json')
TLA_JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'


class MachineryError(Exception):
    pass


class Violation:
    def __init__(self, what, replay):
        self.what = what
        self.replay = replay


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop = prop
        self.tier = tier
        self.seed = seed
        self.t0 = time.time()
        self.scratch = tempfile.mkdtemp(prefix='vf-%s-' % prop)
        os.chmod(self.scratch, 0o755)     # drivers may act as another user
        self.outdir = os.path.join(EVID, 'replay', prop)
        shutil.rmtree(self.outdir, ignore_errors=True)
        os.makedirs(self.outdir, exist_ok=True)
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.samples = []
        self.extra = {}
        self.violations = []
        self.known_hits = []
        self.assumptions = []
        self.spec_runs = []
        self.known = []
        if os.path.exists(KNOWN):
            with open(KNOWN) as f:
                self.known = [k for k in json.load(f)['findings']
                              if k['property'] == prop]

    # -- sizes -----------------------------------------------------------
    def n(self, quick, thorough):
        return thorough if self.tier == 'thorough' else quick

    def elapsed(self):
        return time.time() - self.t0

    # -- sub-processes ---------------------------------------------------
    def env(self, **kw):
        e = {k: v for k, v in os.environ.items()
             if not k.startswith(('PYTHON', 'HDF5_'))}
        e.update(PYTHONPATH=REPO + os.pathsep + os.path.join(VERIF, 'harness'),
                 PYTHONDONTWRITEBYTECODE='1',
                 PYTHONPYCACHEPREFIX=os.path.join(self.scratch, 'pyc'),
                 PYTHONHASHSEED=str(self.seed % 4294967295),
                 PYTHONWARNINGS='ignore',
                 OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1',
                 HDF5_USE_FILE_LOCKING='FALSE' if kw.pop('nolock', False) else 'TRUE',
                 MPLBACKEND='Agg', TMPDIR=self.scratch, LC_ALL='C.UTF-8')
        e.update({k: str(v) for k, v in kw.items()})
        return e

    def drive(self, script, jobs, timeout=600, parallel=8, **env):
        """Run driver script once per job (a JSON-able object), in parallel.

        Each returns the JSON the driver wrote.  A driver which dies or does
        not end is reported as (None, reason, progress): the code under test
        crashed or hung.
        """
        path = os.path.join(VERIF, 'harness', script)
        pend = list(enumerate(jobs))
        running = []
        results = [None] * len(jobs)
        while pend or running:
            while pend and len(running) < parallel:
                i, job = pend.pop(0)
                jf = os.path.join(self.scratch, 'job%d-%d.json' % (i, time.monotonic_ns()))
                of = jf[:-5] + '.out'
                with open(jf, 'w') as f:
                    json.dump(job, f)
                lf = open(jf[:-5] + '.log', 'w')
                p = subprocess.Popen(
                    [PY, path, jf, of], env=self.env(**env), stdout=lf,
                    stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL,
                    cwd=self.scratch, start_new_session=True)
                running.append((i, p, time.time(), of, lf.name))
            time.sleep(0.02)
            for item in list(running):
                i, p, t, of, log = item
                rc = p.poll()
                if rc is None and time.time() - t < timeout:
                    continue
                running.remove(item)
                if rc is None:
                    try:
                        os.killpg(p.pid, 9)
                    except OSError:
                        pass
                    p.wait()
                    results[i] = (None, 'did not end within %d s' % timeout, tail(log))
                elif rc == 0 and os.path.exists(of):
                    with open(of) as f:
                        results[i] = (json.load(f), '', tail(log))
                elif rc == 70:
                    raise MachineryError('driver %s: %s' % (script, tail(log)))
                else:
                    results[i] = (None, 'driver ended with status %s' % rc, tail(log))
        return results

    # -- TLC ---------------------------------------------------------------
    def tlc(self, module, cfg, workers='auto', props=(), args=(), timeout=800,
            env=None, heap='6g', cwd=None):
        """Run TLC, return its output (list of lines) and parsed statistics"""
        meta = tempfile.mkdtemp(prefix='tlc-', dir=self.scratch)
        e = dict(os.environ)
        e.pop('JAVA_TOOL_OPTIONS', None)
        e.update(env or {})
        cmd = ['java', '-Xmx' + heap, '-Xss64m', '-XX:+UseParallelGC',
               '-DTLA-Library=' + SPEC, '-cp', TLA_JARS] + list(props) + [
               'tlc2.TLC', '-metadir', meta, '-noGenerateSpecTE',
               '-workers', str(workers), '-config', os.path.join(SPEC, cfg)] + \
            list(args) + [os.path.join(SPEC, module + '.tla')]
        t = time.time()
        try:
            r = subprocess.run(cmd, env=e, stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, timeout=timeout,
                               stdin=subprocess.DEVNULL, cwd=cwd or self.scratch)
        except subprocess.TimeoutExpired:
            raise MachineryError('TLC timed out on ' + module)
        finally:
            shutil.rmtree(meta, ignore_errors=True)
        out = r.stdout.decode('utf-8', 'replace')
        res = TLCResult(r.returncode, out)
        self.spec_runs.append({'module': module, 'cfg': os.path.basename(cfg),
                               'states': res.distinct, 'transitions': res.generated,
                               'wall_s': round(time.time() - t, 2)})
        return res

    def model_check(self, module, cfg, min_states=2, **kw):
        """Exhaustive check of a design configuration: must pass."""
        res = self.tlc(module, cfg, **kw)
        if res.code != 0 or 'No error has been found' not in res.out:
            raise MachineryError('the specification itself fails: %s/%s\n%s'
                                 % (module, cfg, res.out[-4000:]))
        if res.distinct < min_states:
            raise MachineryError('vacuous model: %s has %d states' % (module, res.distinct))
        self.states += res.distinct
        self.transitions += res.generated
        return res

    def expect_violation(self, module, cfg, **kw):
        """A mutated design must violate its properties: shows the model bites"""
        res = self.tlc(module, cfg, **kw)
        if res.code == 0:
            raise MachineryError('the broken design %s/%s is accepted' % (module, cfg))
        if 'is violated' not in res.out and not re.search('Temporal propert(y|ies) .*(was|were) violated', res.out) \
                and 'Deadlock reached' not in res.out \
                and 'argument of Assert evaluated to FALSE' not in res.out:
            raise MachineryError('unexpected failure of %s/%s\n%s' % (module, cfg, res.out[-3000:]))
        self.states += res.distinct
        self.transitions += res.generated

    def validate(self, module, cfg, scenarios, describe=None, heap='10g', workers=8,
                 label=''):
        """Let TLC judge recorded scenarios (each {'ev': [...], ...}).

        Returns list of (scenario index, event index, [clauses])."""
        if not scenarios:
            raise MachineryError('no scenarios recorded')
        tf = os.path.join(self.scratch, 'trace-%s-%d.json' % (module, time.monotonic_ns()))
        with open(tf, 'w') as f:
            json.dump(scenarios, f)
        res = self.tlc(module, cfg, env={'TRACE': tf}, heap=heap, workers=workers)
        want = sum(len(s['ev']) + 1 for s in scenarios)
        fails = []
        for line in res.out.splitlines():
            m = re.search(r'@F@(\d+)@(\d+)@([^"@]*)@', line)
            if m:
                fails.append((int(m.group(1)) - 1, int(m.group(2)) - 1,
                              sorted(filter(None, m.group(3).split(',')))))
        if res.code != 0:
            # the specification has no words for what was observed
            at = re.findall(r'/\\ l = (\d+)\n/\\ sc = (\d+)', res.out) or [
                (b, a) for a, b in re.findall(r'/\\ sc = (\d+)\n(?:.*\n)*?/\\ l = (\d+)', res.out)]
            if at and re.search(r'Error: ', res.out):
                fails.append((int(at[-1][1]) - 1, int(at[-1][0]) - 1, ['any.unexplainable']))
            elif not fails:
                raise MachineryError('TLC failed on %s\n%s' % (tf, res.out[-5000:]))
        elif res.distinct != want:
            raise MachineryError('TLC consumed %d of %d states\n%s'
                                 % (res.distinct, want, res.out[-3000:]))
        self.states += res.distinct
        self.transitions += res.generated
        self.traces += len(scenarios)
        return sorted(fails)

    def accept(self, module, cfg, scenarios):
        """Which recorded scenarios cannot be explained by the specification?

        The module searches for a behaviour with the recorded events and
        prints @OK@n@ if there is one.  Returns [(scenario index, index of
        the first event which cannot be explained)]."""
        def go(scs, diag):
            tf = os.path.join(self.scratch, 'trace-%s-%d.json' % (module, time.monotonic_ns()))
            with open(tf, 'w') as f:
                json.dump(scs, f)
            res = self.tlc(module, cfg, env={'TRACE': tf, 'DIAG': diag}, heap='10g', workers=8)
            if res.code != 0:
                raise MachineryError('TLC failed on %s\n%s' % (tf, res.out[-3000:]))
            return res
        if not scenarios:
            raise MachineryError('no scenarios recorded')
        res = go(scenarios, '0')
        self.states += res.distinct
        self.transitions += res.generated
        self.traces += len(scenarios)
        good = {int(x) - 1 for x in re.findall(r'@OK@(\d+)@', res.out)}
        bad = [i for i in range(len(scenarios)) if i not in good]
        if not bad:
            return []
        res = go([scenarios[i] for i in bad], '1')
        far = {}
        for a, b in re.findall(r'@R@(\d+)@(\d+)@', res.out):
            far[int(a) - 1] = max(far.get(int(a) - 1, 0), int(b))
        return [(i, far.get(n, 0)) for n, i in enumerate(bad)]

    # -- verdicts -----------------------------------------------------------
    def violation(self, what, detail):
        """Record a violation; detail is a JSON-able object written as replay.

        `what` is a short stable description; a known finding matches on it."""
        for k in self.known:
            if re.fullmatch(k['match'], what):
                if k['id'] not in [x['id'] for x in self.known_hits]:
                    self.known_hits.append(k)
                return
        path = os.path.join(self.outdir, '%03d.json' % len(self.violations))
        with open(path, 'w') as f:
            json.dump({'property': self.prop, 'what': what, 'detail': detail},
                      f, indent=1, default=str)
        self.violations.append(Violation(what, path))

    def sample(self, obj):
        if len(self.samples) < 3:
            self.samples.append(obj)

    def finish(self, level='model_checking'):
        cov = {'states': self.states, 'transitions': self.transitions,
               'traces_validated_against_impl': self.traces,
               'samples': self.samples or ['none'],
               'spec_runs': self.spec_runs}
        cov.update(self.extra)
        ev = {'property': self.prop, 'tier': self.tier, 'seed': self.seed,
              'level': level, 'coverage': cov, 'assumptions': self.assumptions,
              'wall_s': round(self.elapsed(), 2), 'violations': len(self.violations)}
        os.makedirs(EVID, exist_ok=True)
        with open(os.path.join(EVID, self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
        for k in self.known_hits:
            print('KNOWN-FINDING: property=%s %s' % (self.prop, k['what']))
        shown = set()
        for v in self.violations:
            if v.what in shown:
                continue
            shown.add(v.what)
            if len(shown) > 12:
                break
            print('  broken: %s' % v.what)
            print('VIOLATION property=%s replay=%s' % (self.prop, v.replay))
        if not self.violations:
            print('OK property=%s states=%d traces=%d wall=%.1fs'
                  % (self.prop, self.states, self.traces, self.elapsed()))
        return 1 if self.violations else 0

    def cleanup(self):
        shutil.rmtree(self.scratch, ignore_errors=True)


class TLCResult:
    def __init__(self, code, out):
        self.code = code
        self.out = out
        m = re.findall(r'(\d+) states generated, (\d+) distinct states found', out)
        self.generated, self.distinct = map(int, m[-1]) if m else (0, 0)
        m = re.findall(r'The number of states generated: (\d+)', out)
        if m:
            self.generated = self.distinct = int(m[-1])


def tail(path, n=2000):
    try:
        with open(path, errors='replace') as f:
            return f.read()[-n:]
    except OSError:
        return ''
