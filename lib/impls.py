"""The implementations in Go, JavaScript and Python: built from /repo, run."""
from concurrent.futures import ThreadPoolExecutor
import json, os, select, shutil, subprocess, sys, time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.path.join(HERE, '.build', 'impls')
IMPL = '/repo/implementations'
DRIVERS = os.path.join(HERE, 'harness', 'impls')
NAMES = ['go', 'js', 'py']
TSC = '/opt/veriftools/node/node_modules/typescript/bin/tsc'
STALL = 40                                   # seconds one document may take


def build():
    os.makedirs(OUT, exist_ok=True)
    env = dict(os.environ, GOTOOLCHAIN='local', GOPROXY='off', GOSUMDB='off', GOFLAGS='-mod=mod', GOWORK='off',
               GOCACHE=os.path.join(OUT, 'gocache'), HOME=os.environ.get('HOME', '/root'))
    subprocess.run(['go', 'build', '-o', os.path.join(OUT, 'styxgo'), '.'], cwd=os.path.join(DRIVERS, 'go'), env=env, check=True)
    js = os.path.join(OUT, 'js')
    shutil.rmtree(js, ignore_errors=True)
    subprocess.run(['node', TSC, '--noCheck', '-p', IMPL + '/styx-js/tsconfig.json', '--outDir', js], check=True)
    shutil.copy(IMPL + '/styx-js/package.json', js)


def command(name):
    return {'go': [os.path.join(OUT, 'styxgo')],
            'js': ['node', '--stack-size=4000', os.path.join(DRIVERS, 'driver.mjs'), os.path.join(OUT, 'js', 'index.js')],
            'py': [sys.executable, '-B', os.path.join(DRIVERS, 'driver.py'), IMPL + '/styx-py']}[name]


def answers(name, docs):
    """What the implementation makes of each document (lists of code points)."""
    out = []
    lines = [(json.dumps(d) + '\n').encode() for d in docs]
    while len(out) < len(lines):
        first = len(out)
        p = subprocess.Popen(command(name), stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
        os.set_blocking(p.stdin.fileno(), False)
        os.set_blocking(p.stdout.fileno(), False)
        todo, buf, last = b''.join(lines[first:]), b'', time.time()
        at = 0
        while len(out) < len(lines):
            r, w, _ = select.select([p.stdout], [p.stdin] if at < len(todo) else [], [], 1)
            if w:
                try: at += os.write(p.stdin.fileno(), todo[at:at + 65536])
                except BlockingIOError: pass
                except BrokenPipeError: at = len(todo)
            if r:
                x = os.read(p.stdout.fileno(), 1 << 16)
                if not x:
                    out.append(['crash', 'the process ended'])
                    break
                buf += x
                *ls, buf = buf.split(b'\n')
                if ls: last = time.time()
                out += [json.loads(l) for l in ls]
            elif time.time() - last > STALL:
                out.append(['hang', '%d s without an answer' % STALL])
                break
        p.kill()
        p.wait()
    return out


def offsets(cs):
    at, n = {}, 0
    for i, c in enumerate(cs):
        at[n] = i
        n += 1 if c < 128 else 2 if c < 2048 else 3 if c < 65536 else 4
    at[n] = len(cs)
    return at


def value(v, at):
    g, k, n, t, items, es, sp, inner = v
    s = lambda x: [] if x[0] == -1 else [at.get(x[0], -1), at.get(x[1], -1)]
    return [g, k, n, t, [value(x, at) for x in items], [[value(a, at), value(b, at), []] for a, b in es], s(sp)]


def record(a, cs):
    """In the form of the records of the reference: [how, tree, why, span]"""
    if a[0] == 'tree':
        at = offsets(cs)
        es = [[value(k, at), value(v, at), []] for k, v in a[1]]
        # a root in braces: one entry, whose key was never written
        if len(es) == 1 and es[0][0][:2] == [[], 'none'] and es[0][0][6] == [] and es[0][1][:2] == [[], 'obj']:
            es = [e + [[]] if len(e) == 2 else e for e in es[0][1][5]]
        return ['tree', [[], 'obj', '', [], [], es, []], '', []]
    if a[0] == 'error':
        at = offsets(cs)
        return ['error', [], ''.join(c for c in a[1] if ' ' <= c <= '~'), [at.get(x, -1) for x in a[2]]]
    return [a[0], [], ''.join(c for c in a[1] if ' ' <= c <= '~')[:120], []]


def attach(recs):
    """What each implementation makes of the records' documents."""
    docs = [r['cs'] for r in recs]
    with ThreadPoolExecutor(len(NAMES)) as pool:
        got = list(pool.map(lambda n: answers(n, docs), NAMES))
    for j, r in enumerate(recs):
        r['impls'] = [[n] + record(g[j], r['cs'])[:3] for n, g in zip(NAMES, got)]
