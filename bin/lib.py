"""Shared by all checks: building, running TLC, reporting."""
import json, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, 'spec')
REPO = '/repo'
JAR = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
THOROUGH = TIER == 'thorough'
START = time.time()


def pick(quick, thorough):
    return thorough if THOROUGH else quick


class ToolError(Exception):
    pass


def log(*a):
    print(f'[{time.time() - START:6.1f}]', *a, flush=True)


class Check:
    """One run of the check of one property."""

    def __init__(self, pid):
        self.pid = pid
        self.work = os.path.join(VERIF, 'work', pid)
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.samples = []
        self.extra = {}
        self.assumptions = []
        self.violations = []   # (replay path, text)
        self.notes = []

    def path(self, *a):
        return os.path.join(self.work, *a)

    # -- building ---------------------------------------------------------
    def cargo(self, args, cwd, target):
        env = dict(os.environ, CARGO_TARGET_DIR=target, CARGO_NET_OFFLINE='true')
        env.pop('RUSTFLAGS', None)
        r = subprocess.run(['cargo', 'build', '--offline', '-q'] + args, cwd=cwd, env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            raise ToolError('build failed:\n' + r.stdout[-4000:])

    def harness(self, name):
        """Build one program of the harness against the current tree."""
        target = os.path.join(VERIF, 'harness', 'target')
        self.cargo(['--bin', name], os.path.join(VERIF, 'harness'), target)
        log('built', name)
        return os.path.join(target, 'debug', name)

    # -- TLC --------------------------------------------------------------
    def tlc_start(self, name, module, cfg, env=None, args=(), heap=None):
        meta = self.path('meta-' + name)
        out = open(self.path(name + '.log'), 'w+')
        cmd = ['java', '-XX:+UseParallelGC', '-Xss64m'] + ([f'-Xmx{heap}'] if heap else []) + \
              ['-cp', JAR, 'tlc2.TLC', '-noGenerateSpecTE', '-metadir', meta, '-config', cfg] + list(args) + [module]
        p = subprocess.Popen(cmd, cwd=SPEC, env=dict(os.environ, **(env or {})), stdout=out, stderr=subprocess.STDOUT)
        return (name, p, out, meta)

    def tlc_end(self, h, timeout=None, ok=(0,)):
        name, p, out, meta = h
        try:
            rc = p.wait(timeout)
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            raise ToolError(f'TLC timed out: {name}')
        out.seek(0)
        text = out.read()
        out.close()
        shutil.rmtree(meta, ignore_errors=True)
        if ok is not None and rc not in ok:
            raise ToolError(f'TLC failed on {name} ({rc}):\n' + text[max(0, text.find('Error:')):][:3000])
        return text, rc

    def tlc(self, name, module, cfg, env=None, args=(), timeout=None, ok=(0,), heap=None):
        return self.tlc_end(self.tlc_start(name, module, cfg, env, args, heap), timeout, ok)

    def count(self, text):
        """Add the states and transitions of an exhaustive run."""
        m = re.search(r'(\d+) states generated, (\d+) distinct states found, (\d+) states left', text)
        if not m:
            raise ToolError('TLC printed no statistics')
        self.transitions += int(m[1])
        self.states += int(m[2])
        return int(m[2]), int(m[1])

    def tables(self):
        """Message layouts and terms, as the specification defines them."""
        out = self.path('tables.json')
        self.tlc('tables', 'ExportMC.tla', 'ExportMC.cfg', {'OUT': out}, timeout=300)
        return out

    # -- exhaustive models -------------------------------------------------
    def models(self, runs, workers=8):
        """runs: [(module, cfg)]. An invariant that fails is an error of the specification."""
        info = {}
        for module, cfg in runs:
            name = 'mc-' + os.path.splitext(cfg)[0]
            t = time.time()
            text, _ = self.tlc(name, module, cfg, args=['-workers', str(workers)], timeout=pick(600, 7200), heap=pick('6g', '20g'))
            d, g = self.count(text)
            info[cfg] = {'distinct': d, 'generated': g, 's': round(time.time() - t, 1)}
            log('model', cfg, d, 'states')
        self.extra.setdefault('models', {}).update(info)

    def sensitive(self, runs):
        """runs: [(module, cfg, property)] that must be violated, or the model above shows nothing: either
        the configuration breaks the design on purpose or the property says that something never happens."""
        info = {}
        for module, cfg, never in runs:
            c = os.path.join(SPEC, cfg)
            if never:
                c = self.path(f'never-{never}-{cfg}')
                with open(os.path.join(SPEC, cfg)) as f, open(c, 'w') as o:
                    for l in f:
                        if not l.startswith(('INVARIANT', 'PROPERT')):
                            o.write(l)
                    o.write(f'INVARIANT {never}\n')
            name = f'never-{os.path.splitext(cfg)[0]}-{never}'
            text, rc = self.tlc(name, module, c, args=['-workers', '8'], timeout=pick(600, 7200), ok=(0, 10, 11, 12, 13), heap='6g')
            if rc == 0:
                raise ToolError(f'{cfg}: {never or "the broken design"} is not violated')
            info[f'{cfg} {never or "broken design"}'] = 'violated as it must'
        self.extra.setdefault('sensitivity', {}).update(info)
        log('sensitivity', len(info))

    # -- reporting ---------------------------------------------------------
    def violation(self, replay, text):
        p = self.path(f'violation-{len(self.violations) + 1}.json')
        with open(p, 'w') as f:
            json.dump(replay, f, indent=1)
        self.violations.append((p, text))
        print(text)

    def sample(self, x):
        if len(self.samples) < 4:
            self.samples.append(x)

    def finish(self, level='model_checking'):
        cov = {'states': self.states, 'transitions': self.transitions,
               'traces_validated_against_impl': self.traces, 'samples': self.samples}
        cov.update(self.extra)
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        ev = {'property': self.pid, 'tier': 'thorough' if THOROUGH else 'quick', 'seed': SEED, 'level': level,
              'coverage': cov, 'assumptions': self.assumptions, 'wall_s': round(time.time() - START, 1),
              'violations': len(self.violations)}
        with open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        for n in self.notes[:10]:
            print('NOTE', n)
        if self.violations:
            print(f'VIOLATION property={self.pid} replay={self.violations[0][0]}')
            return 1
        for line in known_findings(self.pid):
            print('KNOWN-FINDING: ' + line)
        log(f'{self.pid} holds: {self.states} states, {self.traces} traces validated')
        return 0


def known_findings(pid):
    """Open findings of a property (fixed ones suppress nothing)."""
    r = []
    with open(os.path.join(VERIF, 'known_findings.txt')) as f:
        for l in f:
            if l.startswith(f'open: property={pid} '):
                r.append(l[len('open: '):].strip())
    return r


def parse_validation(text):
    """Lines of a trace validation: which traces are accepted, why others are not."""
    done = {int(x) for x in re.findall(r'<<\s*"DONE",\s*(\d+)\s*>>', text)}
    rej = {}
    for m in re.finditer(r'<<\s*"REJECT",\s*(\d+),\s*(\d+),\s*\{([^}]*)\},\s*("(?:[^"\\]|\\.)*")\s*>>', text):
        labels = re.findall(r'"(C\d+)"', m[3])
        try:
            why = json.loads(m[4])
        except ValueError:
            why = m[4]
        rej.setdefault(int(m[1]), set()).add((int(m[2]), tuple(sorted(labels)), why))
    return done, rej


def validate(ck, name, module, cfg, traces_file, n, everything, timeout=None, args=('-workers', '8')):
    """Validate n recorded traces. Returns {tid: (l, labels, reasons)} for those that no
    behaviour of the specification explains."""
    lines = open(traces_file).read().splitlines()
    assert len(lines) == n
    bad = {}
    index = list(range(1, n + 1))
    for attempt in range(12):
        f = traces_file if attempt == 0 else traces_file + f'.{attempt}'
        if attempt:
            with open(f, 'w') as o:
                o.write('\n'.join(lines[i - 1] for i in index) + '\n')
        text, rc = ck.tlc(f'{name}-{attempt}', module, cfg, {'TRACES': f}, list(args) + ['-deadlock'], timeout, ok=None, heap=pick('6g', '20g'))
        done, rej = parse_validation(text)
        for t, rs in rej.items():
            if t not in done:
                l = max(r[0] for r in rs)
                top = [r for r in rs if r[0] == l]
                bad[index[t - 1]] = (l, sorted({x for r in top for x in r[1]}), sorted({r[2] for r in top}))
        if rc == 0:
            m = re.search(r'(\d+) states generated, (\d+) distinct', text)
            ck.states += int(m[2])
            ck.transitions += int(m[1])
            for k, t in enumerate(index, 1):
                if k not in done and t not in bad:
                    bad[t] = (0, sorted(everything), ['no step of the specification explains this event'])
            return bad
        # The specification has no meaning for an event: find the trace, set it aside
        m = re.findall(r'/\\ tid = (\d+)', text)
        ml = re.findall(r'/\\ l = (\d+)', text)
        if not m:
            raise ToolError('validation failed:\n' + text[:3000])
        t = int(m[-1])
        why = re.search(r'Error: (?!The behavior|TLC threw)(.*)', text)
        bad[index[t - 1]] = (int(ml[-1]) if ml else 0, sorted(everything), ['the specification assigns no meaning: ' + (why[1] if why else '?')])
        index.pop(t - 1)
        if not index:
            return bad
    raise ToolError('validation fails on too many traces')
