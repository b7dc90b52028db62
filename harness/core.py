"""Driver: runs TLC (model checking, behaviour generation, judging) and keeps the books."""
import hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, 'spec')
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'


class MachineryError(Exception):
    pass


def limbs(n):
    """Non-negative int -> base-10000 little-endian limbs (BigNat.tla)."""
    n = int(n)
    assert n >= 0
    out = []
    while n:
        n, r = divmod(n, 10000)
        out.append(r)
    return out


_classes = None


def classes():
    """Compile the Java operator overrides (once per source hash)."""
    global _classes
    if _classes:
        return _classes
    src = os.path.join(SPEC, 'java', 'Prim.java')
    h = hashlib.sha256(open(src, 'rb').read()).hexdigest()[:16]
    d = os.path.join(VERIF, 'build', 'classes-' + h)
    if not os.path.exists(os.path.join(d, 'Prim.class')):
        try:
            os.makedirs(os.path.dirname(d), exist_ok=True)
            tmp = tempfile.mkdtemp(dir=os.path.dirname(d))
        except OSError:
            tmp = tempfile.mkdtemp()
            d = tmp
        subprocess.run(['javac', '-nowarn', '-cp', JARS, '-d', tmp, src], check=True, stdout=subprocess.DEVNULL)
        if d != tmp:
            try:
                os.rename(tmp, d)
            except OSError:
                shutil.rmtree(tmp, ignore_errors=True)
    _classes = d
    return d


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.quick = tier == 'quick'
        self.t0 = time.time()
        self.states = self.transitions = self.validated = self.evals = 0
        self.samples, self.violations, self.models, self.known = [], [], [], []
        self.notes = {}
        self.assumptions = []
        self.scratch = tempfile.mkdtemp(prefix='verif-%s-' % prop)
        self.judged_clauses = {}
        self.timing = []

    # ------------------------------------------------------------------ TLC
    def tlc(self, module, cfg, args=(), env=None, workers=None, timeout=800, heap='6g', defs=''):
        """Run TLC on a wrapper module extending `module`; returns (rc, output)."""
        t0 = time.time()
        d = tempfile.mkdtemp(dir=self.scratch)
        name = 'MC_run'
        with open(os.path.join(d, name + '.tla'), 'w') as f:
            f.write('---- MODULE %s ----\nEXTENDS %s\n%s\n====\n' % (name, module, defs))
        with open(os.path.join(d, name + '.cfg'), 'w') as f:
            f.write(cfg)
        e = dict(os.environ)
        e.update(env or {})
        cmd = ['java', '-XX:+UseParallelGC', '-Xmx' + heap, '-Xss64m', '-Djava.io.tmpdir=' + d, '-DTLA-Library=' + SPEC,
               '-cp', JARS + ':' + classes(), 'tlc2.TLC', '-config', name + '.cfg', '-metadir', os.path.join(d, 'md'),
               '-workers', str(workers or os.cpu_count() or 4), '-seed', str(self.seed), '-fp', '1'] + list(args) + [name + '.tla']
        out_path = os.path.join(d, 'out.txt')
        with open(out_path, 'w') as fo:
            try:
                rc = subprocess.run(cmd, cwd=d, env=e, stdout=fo, stderr=subprocess.STDOUT, timeout=timeout).returncode
            except subprocess.TimeoutExpired:
                rc = -9
        self.timing.append((module, round(time.time() - t0, 1)))
        out = open(out_path, errors='replace').read()
        shutil.rmtree(d, ignore_errors=True)
        return rc, out

    @staticmethod
    def _stats(out):
        m = re.findall(r'([\d,]+) states generated, ([\d,]+) distinct states found', out)
        if not m:
            return 0, 0
        g, d = m[-1]
        return int(g.replace(',', '')), int(d.replace(',', ''))

    def model_check(self, module, cfg, defs='', deadlock=False, **kw):
        """Exhaustive check of a design model. A failure is an error of the machinery."""
        rc, out = self.tlc(module, cfg, args=(() if deadlock else ('-deadlock',)), defs=defs, **kw)
        g, d = self._stats(out)
        if rc != 0 or 'No error has been found' not in out:
            raise MachineryError('model %s: rc=%s\n%s' % (module, rc, out[-3000:]))
        self.states += d
        self.transitions += g
        self.models.append({'module': module, 'distinct_states': d, 'transitions': g})
        return d

    def generate(self, module, cfg, num=None, depth=60, defs='', limit=None, **kw):
        """Behaviours of a generator module as JSON. num -> random simulation, else exhaustive."""
        args = ['-deadlock']
        if num:
            args += ['-simulate', 'num=%d' % num, '-depth', str(depth)]
            kw.setdefault('workers', 1)
        rc, out = self.tlc(module, cfg, args=args, defs=defs, **kw)
        scn, seen = [], set()
        for line in out.splitlines():
            if line.startswith('"SCN '):
                s = json.loads(line)[4:]
                if s not in seen:
                    seen.add(s)
                    scn.append(s)
        if rc != 0 or not scn:
            raise MachineryError('generator %s: rc=%s scenarios=%d\n%s' % (module, rc, len(scn), out[-3000:]))
        if not num:
            scn.sort()
            g, d = self._stats(out)
            self.states += d
            self.transitions += g
            self.models.append({'module': module, 'distinct_states': d, 'transitions': g, 'behaviours': len(scn)})
        else:
            self.models.append({'module': module, 'simulated_behaviours': len(scn)})
        return [json.loads(s) for s in scn]

    def judge(self, module, records, clauses=None, describe=None, defs='', cfg='INIT TInit\nNEXT TNext\n', heap='8g', known=None, workers=None, single=False):
        """Trace-validate records; a record fails when its verdict names a clause (of `clauses`, if given)."""
        if not records:
            raise MachineryError('no records for %s' % module)
        path = os.path.join(self.scratch, 'trace-%d.ndjson' % len(os.listdir(self.scratch)))
        with open(path, 'w') as f:
            for r in records:
                f.write(json.dumps(r['rec'] if 'rec' in r else r) + '\n')
        rc, out = self.tlc(module, cfg, args=('-deadlock',), env={'TRACE': path}, defs=defs, heap=heap, workers=workers)
        verdict = {}
        for line in out.splitlines():
            if line.startswith('"V '):
                v = json.loads(json.loads(line)[2:])
                verdict.setdefault(v['k'], set()).update(v['fail'])
        missing = [k for k in range(1, len(records) + 1) if k not in verdict]
        if missing and not single:
            if rc == -9 or len(missing) == len(records) > 3:
                raise MachineryError('judge %s: rc=%s, no verdicts\n%s' % (module, rc, out[-3000:]))
            # TLC stopped at a record it cannot evaluate: judge the rest one batch at a time.
            os.unlink(path)
            rest, batch = missing, max(1, len(missing) // 8)
            bad_records = 0
            for lo in range(0, len(rest), batch):
                todo = [rest[lo:lo + batch]]
                while todo:
                    grp = todo.pop()
                    ok = self._judge_once(module, [records[k - 1] for k in grp], defs, cfg, heap, workers)
                    if ok is not None:
                        for k, f in zip(grp, ok):
                            verdict[k] = f
                    elif len(grp) == 1:
                        verdict[grp[0]] = {'untyped'}
                        bad_records += 1
                    elif bad_records >= 5:
                        for k in grp:
                            verdict[k] = set()
                    else:
                        todo += [grp[:len(grp) // 2], grp[len(grp) // 2:]]
            path = None
        if path:
            os.unlink(path)
        self.validated += len(records)
        self.evals += len(records)
        n = 0
        for k in sorted(verdict):
            bad = verdict[k]
            if 'bad-scenario' in bad:
                raise MachineryError('the harness made a scenario the specification does not recognise: %s' % json.dumps(records[k - 1], default=str)[:1500])
            if clauses is not None:
                bad = {c for c in bad if c in clauses or c.split(':')[0] in clauses or c == 'untyped'}
            if bad:
                r = records[k - 1]
                msg = known(r, bad) if known else None
                if msg:
                    if msg not in self.known:
                        self.known.append(msg)
                    continue
                n += 1
                self.violate(sorted(bad), r)
        if len(self.samples) < 6 and records:
            for r in (records[0], records[len(records) // 2]):
                s = json.dumps(r.get('scn', r) if isinstance(r, dict) else r)
                if len(self.samples) < 6:
                    self.samples.append(json.loads(s) if len(s) < 3000 else s[:3000])
        return n

    def _judge_once(self, module, records, defs, cfg, heap, workers):
        path = os.path.join(self.scratch, 'trace-once.ndjson')
        with open(path, 'w') as f:
            for r in records:
                f.write(json.dumps(r['rec'] if 'rec' in r else r) + '\n')
        rc, out = self.tlc(module, cfg, args=('-deadlock',), env={'TRACE': path}, defs=defs, heap=heap, workers=workers)
        v = {}
        for line in out.splitlines():
            if line.startswith('"V '):
                x = json.loads(json.loads(line)[2:])
                v.setdefault(x['k'], set()).update(x['fail'])
        if len(v) < len(records):
            return None
        return [v[k] for k in range(1, len(records) + 1)]

    def listed(self, key):
        """The description of a known finding of this property, or None."""
        try:
            for line in open(os.path.join(VERIF, 'known_findings.txt')):
                m = re.match(r'known: property=(\S+) key=(\S+) (.*)', line)
                if m and m.group(1) == self.prop and m.group(2) == key:
                    return m.group(3)
        except OSError:
            pass
        return None

    def violate(self, clauses, data):
        d = os.path.join(VERIF, 'build', 'replay')
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, '%s-%d.json' % (self.prop, len(self.violations) + 1))
        if len(self.violations) < 20:
            with open(path, 'w') as f:
                json.dump({'property': self.prop, 'seed': self.seed, 'tier': self.tier, 'failed_clauses': list(clauses), 'record': data}, f, indent=1, default=str)
        self.violations.append((list(clauses), path))

    # ------------------------------------------------------------- results
    def finish(self):
        ev = {'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': 'model_checking',
              'coverage': {'states': self.states, 'transitions': self.transitions,
                           'traces_validated_against_impl': self.validated,
                           'samples': self.samples or ['(none)'], 'models': self.models, **self.notes},
              'assumptions': self.assumptions, 'wall_s': round(time.time() - self.t0, 2), 'violations': len(self.violations)}
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        shutil.rmtree(self.scratch, ignore_errors=True)
        if os.environ.get('VERIF_DEBUG'):
            print('timing', self.timing)
        for m in self.known:
            print('KNOWN-FINDING: property=%s %s' % (self.prop, m))
        if self.violations:
            for cl, path in self.violations[:5]:
                print('failed clauses: %s' % ', '.join(cl))
                print('VIOLATION property=%s replay=%s' % (self.prop, path))
            return 1
        print('OK property=%s states=%d traces=%d wall=%.1fs' % (self.prop, self.states, self.validated, time.time() - self.t0))
        return 0
