"""Shared machinery of the checks: building the harness from /repo's working
tree, running it on documents, handing what it recorded to TLC, and reporting.

Exit status of a check: 0 held, 1 violation (with a VIOLATION line), anything
else is an error of the check itself."""
import json, os, random, re, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
SPEC = os.path.join(VERIF, 'spec')
BUILD = os.path.join(VERIF, '.build')
EVID = os.path.join(VERIF, 'evidence')
JAVA_CP = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'


def cargo_env():
    e = dict(os.environ)
    e.update(HOME='/root', PATH='/root/.cargo/bin:' + e.get('PATH', '/usr/local/bin:/usr/bin:/bin'),
             RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu', CARGO_NET_OFFLINE='true',
             CARGO_TERM_COLOR='never', RUSTC_WRAPPER='', CARGO_TARGET_DIR=BUILD, NO_COLOR='1',
             LANG=e.get('LANG', 'C.UTF-8'))
    return e


class CheckError(Exception):
    pass


def run(cmd, timeout, **kw):
    """subprocess with a process group that is killed on timeout."""
    p = subprocess.Popen(cmd, start_new_session=True, **kw)
    try:
        out, err = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        out, err = p.communicate()
        return None, out, err
    return p.returncode, out, err


def cargo(args, cwd, timeout=840):
    rc, out, err = run(['cargo'] + args, timeout, cwd=cwd, env=cargo_env(),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if rc != 0:
        raise CheckError('cargo %s in %s failed:\n%s' % (' '.join(args), cwd, (out or '')[-4000:]))


def build_harness(name='core'):
    d = os.path.join(VERIF, 'harness', name)
    cargo(['build', '--offline', '--quiet'], d)
    with open(os.path.join(d, 'Cargo.toml')) as f:
        binname = re.search(r'^name = "(.*)"', f.read(), re.M).group(1)
    return os.path.join(BUILD, 'debug', binname)


def build_cli():
    """The styx command line, built from /repo's working tree."""
    cargo(['build', '--offline', '--quiet', '--locked', '--manifest-path', REPO + '/Cargo.toml', '-p', 'styx-cli'], VERIF)
    return os.path.join(BUILD, 'debug', 'styx')


def _limits():
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (16 << 30, 16 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def run_harness_par(binary, requests, recs, tmp, k=6):
    """run_harness in k processes at a time"""
    import concurrent.futures
    def part(j):
        d = os.path.join(tmp, 'par%d' % j)
        os.makedirs(d, exist_ok=True)
        return run_harness(binary, requests, recs[j::k], d)
    with concurrent.futures.ThreadPoolExecutor(k) as ex:
        parts = list(ex.map(part, range(k)))
    return [parts[i % k][i // k] for i in range(len(recs))]


def run_harness(binary, requests, recs, tmp, per_doc=20, extra=()):
    """Run the harness on records; returns one output record per input.  A
    record on which the process hangs or dies gets {'panics': [...]}."""
    outs, todo, part = [], list(recs), 0
    while todo:
        part += 1
        inp, outp = os.path.join(tmp, 'in%d' % part), os.path.join(tmp, 'out%d' % part)
        with open(inp, 'w') as f:
            for r in todo:
                f.write(json.dumps(r) + '\n')
        with open(inp) as fi, open(outp, 'w') as fo:
            p = subprocess.Popen([binary] + list(extra) + list(requests), stdin=fi, stdout=fo, stderr=subprocess.DEVNULL,
                                 start_new_session=True, preexec_fn=_limits)
            last, t = -1, time.time()
            dead = None
            while True:
                try:
                    p.wait(timeout=0.2 if part > 1 or len(todo) < 50 else 1)
                    break
                except subprocess.TimeoutExpired:
                    size = os.path.getsize(outp)
                    if size != last:
                        last, t = size, time.time()
                    elif time.time() - t > per_doc:
                        os.killpg(p.pid, signal.SIGKILL)
                        p.wait()
                        dead = 'hang'
                        break
        if dead is None and p.returncode != 0:
            dead = 'abort(%s)' % p.returncode
        with open(outp) as f:
            got = [json.loads(l) for l in f if l.endswith('\n')]
        outs += got
        if len(got) == len(todo):
            break
        if dead is None:
            raise CheckError('harness answered %d of %d records' % (len(got), len(todo)))
        bad = dict(todo[len(got)])
        bad['panics'] = [dead]
        for q in requests:
            bad[q] = []
        outs.append(bad)
        todo = todo[len(got) + 1:]
        if part > 12:
            raise CheckError('harness keeps dying')
    return outs


STAT = re.compile(r'^(\d+) states generated, (\d+) distinct states found', re.M)


class Tlc:
    def __init__(self):
        self.states = self.transitions = self.runs = self.depth = 0
        self.notes = {}


def tlc_run(module, env=None, cfg=None, timeout=600, tmp=None, workers=8, xss='256m', opts=()):
    """One TLC run; returns (rc, output)."""
    meta = tempfile.mkdtemp(prefix='meta', dir=tmp)
    e = dict(os.environ)
    e.update(env or {})
    cmd = ['java', '-Xss' + xss, '-Xmx12g', '-XX:+UseParallelGC', '-cp', JAVA_CP, 'tlc2.TLC', '-workers', str(workers),
           '-metadir', meta, '-noGenerateSpecTE', '-config', (cfg or module) + '.cfg'] + list(opts) + [module + '.tla']
    rc, out, _ = run(cmd, timeout, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    shutil.rmtree(meta, ignore_errors=True)
    return rc, out or ''


def _mismatches(out):
    res = []
    for l in out.splitlines():
        if l.startswith('"MISMATCH '):
            try:
                s = json.loads(l)
            except ValueError:
                s = l[1:-1].replace('\\"', '"').replace('\\\\', '\\')
            res.append(json.loads(s[len('MISMATCH '):]))
    return res


def _write(recs, path):
    with open(path, 'w') as f:
        for r in recs:
            f.write(json.dumps(r) + '\n')


def tlc_records(module, recs, ctx, cfg=None, timeout=700):
    """Trace validation of recorded observations.  Returns the mismatches
    printed by the module.  When TLC cannot evaluate the specification on a
    record (what was observed has a shape the specification never has), the
    record is isolated and reported as a mismatch of kind 'shape'."""
    path = os.path.join(ctx.tmp, 'recs.%s.%d' % (module, ctx.tlc.runs))
    _write(recs, path)
    rc, out = tlc_run(module, {'STYX_RECS': path}, cfg, timeout, ctx.tmp)
    ctx.tlc.runs += 1
    m = None
    for m in STAT.finditer(out):
        pass
    mism = _mismatches(out)
    if rc == 0 and m:
        ctx.tlc.transitions += int(m.group(1)) - len(recs)
        ctx.tlc.states += int(m.group(2))
        return mism
    if rc is None:
        raise CheckError('TLC timed out on %s' % module)
    if mism:
        return mism
    if 'arsing or semantic analysis failed' in out or 'Multiply-defined' in out or 'Could not parse module' in out:
        raise CheckError('the specification does not load:\n' + out[-3000:])
    if len(recs) == 1:
        tail = out[out.find('Error'):][:1500]
        if os.environ.get('STYX_SHAPE_ERR'):
            raise CheckError(out[-6000:])
        return [{'id': recs[0]['id'], 'kind': 'shape', 'exp': tail, 'got': ''}]
    if ctx.tlc.runs > 60:
        raise CheckError('TLC failed on %s:\n%s' % (module, out[-3000:]))
    h = len(recs) // 2
    a = tlc_records(module, recs[:h], ctx, cfg, timeout)
    return a if a else tlc_records(module, recs[h:], ctx, cfg, timeout)


def tlc_model(module, ctx, cfg=None, env=None, timeout=700, opts=()):
    """Model checking of a design-level module; an error here is an error of
    the check (the specification contradicts itself), never a violation."""
    rc, out = tlc_run(module, env, cfg, timeout, ctx.tmp, opts=opts)
    m = None
    for m in STAT.finditer(out):
        pass
    if rc != 0 or not m:
        raise CheckError('model checking %s failed (rc %s):\n%s' % (module, rc, out[-5000:]))
    ctx.tlc.runs += 1
    ctx.tlc.transitions += int(m.group(1))
    ctx.tlc.states += int(m.group(2))
    ctx.models.append({'module': module, 'cfg': cfg or module, 'generated': int(m.group(1)), 'distinct': int(m.group(2))})
    return out


def show(x):
    """Readable form of an event / value: code point lists become strings."""
    if isinstance(x, list):
        if x and all(isinstance(y, int) and 0 <= y < 0x110000 for y in x) and not (len(x) == 2 and False):
            try:
                return ''.join(map(chr, x))
            except ValueError:
                return x
        return [show(y) for y in x]
    if isinstance(x, dict):
        return {k: show(v) for k, v in x.items()}
    return x


class Ctx:
    def __init__(self, prop, tier, seed, level='model_checking'):
        self.prop, self.tier, self.seed, self.level = prop, tier, seed, level
        self.rng = random.Random('%s/%s' % (prop, seed))
        self.tmp = tempfile.mkdtemp(prefix='styxv.')
        self.tlc = Tlc()
        self.t0 = time.time()
        self.violations, self.models, self.samples = [], [], []
        self.traces = 0
        self.seen_findings = []
        self.cov = {}
        self.assumptions = []

    @property
    def thorough(self):
        return self.tier == 'thorough'

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    def violation(self, what, replay):
        """Record a violation: a short description and everything needed to
        replay it."""
        self.violations.append((what, replay))

    def finding(self, key):
        """Whether a deviation is one of the listed findings."""
        for k, text in known(self.prop):
            if k == key:
                if key not in self.seen_findings:
                    self.seen_findings.append(key)
                    print('KNOWN-FINDING: property=%s %s: %s' % (self.prop, k, text))
                self.count('finding_' + key)
                return True
        return False

    def count(self, key, n=1):
        self.cov[key] = self.cov.get(key, 0) + n

    def finish(self):
        d = os.path.join(EVID, 'replay')
        os.makedirs(d, exist_ok=True)
        for i, (what, rep) in enumerate(self.violations[:20]):
            p = os.path.join(d, '%s-%d.json' % (self.prop, i))
            with open(p, 'w') as f:
                json.dump({'property': self.prop, 'what': what, 'seed': self.seed, 'tier': self.tier, 'case': rep}, f, indent=1)
            print('VIOLATION property=%s replay=%s %s' % (self.prop, p, ''.join(c if ' ' <= c < '\x7f' else '?' for c in what)))
        cov = dict(self.cov)
        cov.update(states=self.tlc.states, transitions=self.tlc.transitions,
                   traces_validated_against_impl=self.traces, samples=self.samples[:8], models=self.models, tlc_runs=self.tlc.runs)
        ev = {'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': self.level, 'coverage': cov,
              'assumptions': self.assumptions, 'wall_s': round(time.time() - self.t0, 1), 'violations': len(self.violations)}
        with open(os.path.join(EVID, self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        print('%s %s: %d states, %d transitions, %d traces validated, %.0f s, %d violation(s)' % (
            self.prop, self.tier, self.tlc.states, self.tlc.transitions, self.traces, time.time() - self.t0, len(self.violations)))
        return 1 if self.violations else 0

    def close(self):
        shutil.rmtree(self.tmp, ignore_errors=True)


def known(prop):
    """The listed findings of a property: [(id, text)]"""
    res = []
    with open(os.path.join(VERIF, 'known_findings.txt')) as f:
        for l in f:
            m = re.match(r'known: property=(\S+) id=(\S+) (.*)', l)
            if m and m.group(1) == prop:
                res.append((m.group(2), m.group(3).strip()))
    return res


def doc_records(docs):
    return [{'id': i, 'cs': [ord(c) for c in d]} for i, d in enumerate(docs)]


def clean(d):
    """Only Unicode scalar values can reach a &str."""
    return ''.join(c for c in d if not 0xd800 <= ord(c) <= 0xdfff)


def corpus(maxlen=None):
    import glob
    out = []
    for f in sorted(glob.glob(REPO + '/**/*.styx', recursive=True)):
        if '/target/' in f or 'node_modules' in f:
            continue
        try:
            s = open(f, newline='', encoding='utf-8').read()
        except (UnicodeDecodeError, OSError):
            continue
        if maxlen is None or len(s) <= maxlen:
            out.append(s)
    return out


def check_docs(ctx, module, binary, requests, docs, label, cfg=None, opts=None, kinds=None, findings=(), prepare=None):
    """Documents through the real code, the records through TLC.  opts: from a
    document the options of its record; kinds: which mismatches matter here;
    findings: mismatch kind -> the listed finding it is."""
    docs = [clean(d) for d in docs]
    recs = doc_records(docs)
    if opts:
        for r in recs:
            r.update(opts(r))
    outs = run_harness(binary, requests, recs, ctx.tmp)
    if prepare:
        prepare(outs)
    ctx.count('docs_' + label, len(docs))
    ctx.traces += len(docs)
    mism = tlc_records(module, outs, ctx, cfg)
    seen = set()
    for m in mism:
        d = docs[m['id']]
        if (m['id'], m['kind']) in seen or (kinds and m['kind'] not in kinds and m['kind'] not in findings and m['kind'] not in ('panic', 'shape')):
            continue
        seen.add((m['id'], m['kind']))
        if m['kind'] in findings and ctx.finding(findings[m['kind']]):
            continue
        ctx.violation('%s: %s on %r' % (label, m['kind'], d[:200]),
                      {'module': module, 'requests': requests, 'document': d, 'code_points': recs[m['id']]['cs'],
                       'expected': show(m['exp']), 'observed': show(m['got'])})
    for d in docs[:2]:
        ctx.samples.append({'from': label, 'document': d[:300]})
    return outs
