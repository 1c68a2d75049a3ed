"""
Shared machinery of the checks.

A check consists of
  * model runs:   TLC explores a small-constant instance of the
                  specification and checks its invariants; some of these
                  also print every transition they take (as JSON), which
                  the driver then replays in the real code;
  * a driver:     a Python program which runs the real code in /repo through
                  its public interface and records what happened, one
                  history per line of JSON;
  * a trace run:  TLC reads the recorded histories and decides, with the
                  same operators that the model runs explore, whether each
                  one is a behaviour of the specification.

Only the trace run (or a driver that cannot run the code at all) decides
the verdict about /repo.
"""
import json, os, re, resource, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, 'spec')
REPO = os.environ.get('VERIF_REPO', '/repo')
PY = '/opt/venv/bin/python'
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'


class Check:
    def __init__(self, prop, tier=None, seed=None):
        self.prop = prop
        self.tier = tier or os.environ.get('VERIF_TIER', 'quick')
        if self.tier not in ('quick', 'thorough'):
            self.tier = 'quick'
        try:
            self.seed = int(seed if seed is not None else os.environ.get('VERIF_SEED', '1'))
        except ValueError:
            self.seed = 1
        self.t0 = time.time()
        self.scratch = tempfile.mkdtemp(prefix=f'verif-{prop}-')
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.events = 0
        self.samples = []
        self.notes = {}
        self.assumptions = []
        self.models = []
        self.known = []
        self.evid = os.path.join(VERIF, 'evidence')
        os.makedirs(self.evid, exist_ok=True)
        try:
            os.unlink(os.path.join(self.evid, f'replay-{prop}.json'))
        except OSError:
            pass

    @property
    def thorough(self):
        return self.tier == 'thorough'

    def path(self, name):
        return os.path.join(self.scratch, name)

    # ---- TLC ----------------------------------------------------------

    def tlc(self, module, cfg=None, env=None, workers=8, timeout=600, extra=(), heap='6g'):
        """Runs TLC. Returns (returncode, output)."""
        meta = tempfile.mkdtemp(prefix='meta', dir=self.scratch)
        e = dict(os.environ)
        e.update(env or {})
        cmd = ['java', f'-Xmx{heap}', '-XX:+UseParallelGC', '-Xss64m', f'-Djava.io.tmpdir={self.scratch}',
               '-cp', JARS, 'tlc2.TLC',
               '-metadir', meta, '-workers', str(workers), '-deadlock',
               '-noGenerateSpecTE',
               '-config', os.path.join(SPEC, (cfg or module) + '.cfg'), *extra,
               os.path.join(SPEC, module + '.tla')]
        try:
            r = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, timeout=timeout)
            rc, out = r.returncode, r.stdout.decode('utf-8', 'replace')
        except subprocess.TimeoutExpired as x:
            rc, out = -9, (x.stdout or b'').decode('utf-8', 'replace') + '\nTLC timed out'
        shutil.rmtree(meta, ignore_errors=True)
        out = re.sub(r'(?m)^(Parsing file|Semantic processing).*\n', '', out)
        return rc, out

    def _counts(self, out):
        m = re.findall(r'([\d,]+) states generated, ([\d,]+) distinct states found', out)
        if not m:
            return 0, 0
        g, d = m[-1]
        return int(g.replace(',', '')), int(d.replace(',', ''))

    def model(self, module, cfg=None, env=None, emit=None, **kw):
        """
        Explores a model exhaustively and requires its invariants to hold.
        Returns the JSON values it printed (lines beginning with EMIT).
        A failure here is a fault in the specification, which does not
        depend on /repo; it is raised as an error of the check.
        """
        rc, out = self.tlc(module, cfg, env, **kw)
        if rc != 0:
            sys.stderr.write(out[-6000:])
            raise RuntimeError(f'model {cfg or module} failed: rc={rc}')
        g, d = self._counts(out)
        self.states += d
        self.transitions += g
        self.models.append(dict(model=cfg or module, distinct=d, generated=g))
        return parse_emitted(out)

    # ---- driver -------------------------------------------------------

    def drive(self, script, jobs, out='trace.ndjson', timeout=700, env=None):
        """
        Runs checks/<script> for each job (all at once, up to eight of them);
        each writes histories, which are put together in one file.
        """
        if isinstance(jobs, dict):
            jobs = [jobs]
        e = dict(os.environ)
        e.update(PYTHONDONTWRITEBYTECODE='1', PYTHONNOUSERSITE='1',
                 PYTHONPYCACHEPREFIX=self.path('pyc'), PYTHONHASHSEED='0',
                 PYTHONPATH=os.pathsep.join([REPO, os.path.join(VERIF, 'lib')]))
        e.update(env or {})
        tracefile = self.path(out)
        cpu = 3000 if self.thorough else 150

        def limits():     # in case the code never returns
            resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu+5))
            resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
        if self.thorough:
            timeout = max(timeout, 4000)
        deadline = time.time()+timeout
        running, waiting, results = [], list(enumerate(jobs)), {}
        failure = None
        while (waiting or running) and failure is None:
            while waiting and len(running) < 8:
                n, job = waiting.pop(0)
                work = tempfile.mkdtemp(prefix='work', dir=self.scratch)
                jobfile, part, log = work+'.job', work+'.part', work+'.log'
                with open(jobfile, 'w') as f:
                    json.dump(job, f)
                with open(log, 'wb') as lf:
                    p = subprocess.Popen([PY, os.path.join(VERIF, 'checks', script), jobfile, part],
                                         cwd=work, env=e, stdin=subprocess.DEVNULL, stdout=lf,
                                         stderr=subprocess.STDOUT, start_new_session=True,
                                         preexec_fn=limits)
                running.append((n, p, work, part, log))
            time.sleep(0.02)
            for r in list(running):
                n, p, work, part, log = r
                rc = p.poll()
                if rc is None and time.time() > deadline:
                    rc = 'timeout'
                if rc is None:
                    continue
                running.remove(r)
                if rc != 0:
                    with open(log, 'rb') as f:
                        failure = dict(rc=rc, log=f.read()[-8000:].decode('utf-8', 'replace'))
                    if rc == 'timeout':
                        running.append(r)
                    break
                results[n] = part
                shutil.rmtree(work, ignore_errors=True)
        for n, p, work, part, log in running:
            try:
                os.killpg(p.pid, 9)
            except OSError:
                pass
            p.wait()
        if failure:
            # The library could not even be run: no history conforms.
            self.violation('library-unusable', failure)
        with open(tracefile, 'wb') as f:
            for n in sorted(results):
                with open(results[n], 'rb') as g:
                    shutil.copyfileobj(g, f)
                os.unlink(results[n])
        return tracefile

    def shards(self, job, n=8, split=('paths',), share=('random',)):
        """Splits a job into n, dividing the lists in `split' and the counts in `share'."""
        out = []
        for i in range(n):
            j = dict(job, seed=job['seed']*1000+i, shard=i)
            for k in split:
                if k in job:
                    j[k] = job[k][i::n]
            for k in share:
                if k in job:
                    j[k] = job[k]//n + (1 if i < job[k] % n else 0)
            out.append(j)
        return out

    # ---- trace validation ---------------------------------------------

    PART = 40000000

    def validate(self, module, tracefile, cfg='Trace', env=None, timeout=600, known=None, **kw):
        """
        Decides whether every recorded history is a behaviour of the spec.
        known: function(history, event index, clauses) -> finding text or None
        """
        with open(tracefile) as f:
            hist = f.read().splitlines()
        if not hist:
            self.violation('no-histories', {})
        if sum(map(len, hist)) > 2*self.PART:        # TLC holds all of it in memory
            part, size, n, outs = [], 0, 0, ''
            for j, line in enumerate(hist):
                part.append(line)
                size += len(line)
                if size > self.PART or j == len(hist)-1:
                    name = '%s.%d' % (tracefile, n)
                    with open(name, 'w') as f:
                        f.write('\n'.join(part) + '\n')
                    outs += self.validate(module, name, cfg, env, timeout, known, **kw)
                    os.unlink(name)
                    part, size, n = [], 0, n+1
            return outs
        e = dict(TRACE=tracefile, PROP=self.prop)
        e.update(env or {})
        rc, out = self.tlc(module, cfg, e, timeout=timeout, **kw)
        g, d = self._counts(out)
        if rc == 0 and 'No error has been found' in out:
            n = sum(len(json.loads(h)['ev']) for h in hist)
            left = len(re.findall(r'^<<"LEFT"', out, re.M))
            if left:
                self.notes['histories left early (another property)'] = left
            elif d < n:
                raise RuntimeError(f'{module}: {n} events recorded but only {d} states validated')
            self.traces += len(hist)
            self.events += n
            self.states += d
            self.transitions += n
            return out
        m = [re.findall(r'^/\\ %s = (.*(?:\n  .*)*)' % v, out, re.M) for v in ('h', 'i', 'bad')]
        if 'is violated' in out and all(m):
            h, i = int(m[0][-1]), int(m[1][-1])
            bad = ' '.join(m[2][-1].split())
            rec = json.loads(hist[h-1])
            self.violation(bad, dict(history=rec.get('id'), step=i, clauses=bad,
                                     cfg=rec.get('cfg'),
                                     events=rec['ev'][:i],
                                     spec=module))
        self.violation('history-outside-spec', dict(spec=module, rc=rc, tlc=out[-6000:]))

    # ---- verdict ------------------------------------------------------

    def violation(self, clause, detail):
        p = os.path.join(self.evid, f'replay-{self.prop}.json')
        with open(p, 'w') as f:
            json.dump(dict(property=self.prop, clause=clause, seed=self.seed, tier=self.tier, **detail),
                      f, indent=1, ensure_ascii=True)
        self.write_evidence(1)
        print(f'clause: {clause}')
        print(f'VIOLATION property={self.prop} replay={p}')
        sys.stdout.flush()
        shutil.rmtree(self.scratch, ignore_errors=True)
        os._exit(1)

    def known_finding(self, text):
        self.known.append(text)
        print(f'KNOWN-FINDING: property={self.prop} {text}')

    def write_evidence(self, violations):
        cov = dict(states=self.states, transitions=self.transitions,
                   traces_validated_against_impl=self.traces,
                   events_validated_against_impl=self.events,
                   models=self.models, samples=self.samples[:3] or ['none'])
        cov.update(self.notes)
        if self.known:
            cov['known_findings'] = self.known
        with open(os.path.join(self.evid, f'{self.prop}.json'), 'w') as f:
            json.dump(dict(property=self.prop, tier=self.tier, seed=self.seed,
                           level='model_checking', coverage=cov,
                           assumptions=self.assumptions,
                           wall_s=round(time.time()-self.t0, 2),
                           violations=violations), f, indent=1)

    def sample_from(self, tracefile, n=2):
        with open(tracefile) as f:
            lines = f.read().splitlines()
        step = max(1, len(lines)//n)
        for l in lines[::step][:n]:
            r = json.loads(l)
            r['ev'] = r['ev'][:2]
            s = json.dumps(r)
            self.samples.append(r if len(s) < 3000 else s[:3000])

    def done(self):
        self.write_evidence(0)
        shutil.rmtree(self.scratch, ignore_errors=True)
        print(f'{self.prop} {self.tier}: held on {self.traces} histories '
              f'({self.events} events); models {self.models}; '
              f'{time.time()-self.t0:.1f}s')
        return 0


def parse_emitted(out):
    """Values printed by the models as <<"EMIT", "...json...">>."""
    r = []
    for line in out.splitlines():
        if line.startswith('<<"EMIT", "'):
            s = line[len('<<"EMIT", '):-2]
            r.append(json.loads(json.loads(s)))
    return r
