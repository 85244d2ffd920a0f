"""Sessions of the command line: commands with their files, run for real in a
scratch directory, and recorded for the specification."""
import json, os, shutil, subprocess, tempfile, concurrent.futures
import gen, gschema
from common import *

U = lambda s: [ord(c) for c in s]
SEG = lambda p: [U(x) for x in p.split('/')]


# ------------------------------------------------------------------ readers
class Odd(Exception):
    pass


def jenc(x):
    if x is None: return ['null']
    if isinstance(x, str): return ['str', U(x)]
    if isinstance(x, list): return ['arr', [jenc(y) for y in x]]
    if isinstance(x, tuple): return ['obj', [[U(k), jenc(v)] for k, v in x[0]]]
    return ['other', repr(x)]


def read_json(t):
    try:
        return [jenc(json.loads(t, object_pairs_hook=lambda ps: (ps,)))]
    except ValueError:
        return []


def read_sexp(t, src):
    """The tree printed as s-expression, in the form of the tree records."""
    at = {}
    n = 0
    for i, ch in enumerate(src):
        at[n] = i
        n += len(ch.encode())
    at[n] = len(src)
    pos = [0]

    def ws():
        while pos[0] < len(t) and t[pos[0]] in ' \n': pos[0] += 1

    def word(w):
        ws()
        if not t.startswith(w, pos[0]): raise Odd(w)
        pos[0] += len(w)

    def number():
        ws()
        m = re.compile(r'-?\d+').match(t, pos[0])
        if not m: raise Odd('number')
        pos[0] = m.end()
        return int(m.group())

    def span():
        word('['); a = number(); word(','); b = number(); word(']')
        return [] if a == -1 else [at.get(a, -1), at.get(b, -1)]

    def string():
        word('"')
        out = []
        while True:
            c = t[pos[0]]
            pos[0] += 1
            if c == '"': return U(''.join(out))
            if c != '\\': out.append(c); continue
            e = t[pos[0]]
            pos[0] += 1
            if e == 'u':
                z = t.index('}', pos[0]); out.append(chr(int(t[pos[0] + 1:z], 16))); pos[0] = z + 1
            else: out.append({'n': '\n', 't': '\t', 'r': '\r', '0': '\0'}.get(e, e))

    def entries():
        out = []
        while True:
            ws()
            if t.startswith('(entry', pos[0]):
                word('(entry'); k = value(); v = value(); word(')'); out.append([k, v, []])
            else: return out

    def value():
        ws()
        m = re.compile(r'\((unit|tag|scalar|sequence|object|document)').match(t, pos[0])
        if not m: raise Odd('value')
        pos[0] = m.end()
        k = m.group(1)
        sp = span()
        r = [[], 'none', '', [], [], [], sp]
        if k == 'tag':
            r[0] = [0] + string(); ws()
            if t[pos[0]] == '(':
                v = value(); r[1:6] = v[1:6]
        elif k == 'scalar':
            r[1] = 'scalar'
            ws(); m = re.compile(r'[a-z]+').match(t, pos[0]); pos[0] = m.end()
            r[2], r[3] = m.group().capitalize(), string()
        elif k == 'sequence':
            r[1] = 'seq'
            while True:
                ws()
                if t[pos[0]] == ')': break
                r[4].append(value())
        elif k in ('object', 'document'):
            r[1] = 'obj'
            r[5] = entries()
        word(')')
        return r
    try:
        first, rest = t.split('\n', 1)
        if not first.startswith('; file: '): raise Odd('header')
        m = re.match(r'\(error \[(\d+), (\d+)\] "', rest)
        if m: return [at.get(int(m.group(1)), -1), at.get(int(m.group(2)), -1)]
        t = rest
        v = value()
        ws()
        if pos[0] != len(t): raise Odd('end')
        return v
    except (Odd, IndexError, AttributeError, ValueError):
        return ['?']


# ----------------------------------------------------------------- sessions
PLACES = ['d.styx', 'e.styx', 's.styx', 'sub/f.styx', 'sub/s.styx', 'x.styx', 'dir.d', 'bad.styx']
SPELL = ['d.styx', 'd.styx', './d.styx', 'sub/../d.styx', './/d.styx', 'e.styx', 'sub/f.styx', './sub/f.styx', 'l.styx', 's.styx', 'bad.styx', 'dir.d', 'no.styx', 'no/x.styx', 'x.styx', '-', '-', 'd.styx/x.styx', 'sub/l.styx']


class Session:
    def __init__(self, files, cmds, tools):
        self.files, self.cmds, self.tools = files, cmds, tools

    def run(self, cli, base):
        d = tempfile.mkdtemp(prefix='s', dir=base)
        w, b, h = os.path.join(d, 'w'), os.path.join(d, 'bin'), os.path.join(d, 'home')
        for x in (w, b, h): os.makedirs(x)
        for p, (k, t) in sorted(self.files.items(), key=lambda x: (x[1][0] == 'link', x[0])):
            q = os.path.join(w, p)
            os.makedirs(os.path.dirname(q), exist_ok=True)
            if k == 'dir': os.makedirs(q, exist_ok=True)
            elif k == 'link': os.symlink(os.path.relpath(os.path.join(w, t), os.path.dirname(q)), q)
            else:
                with open(q, 'wb') as f: f.write(t if k == 'bin' else t.encode())
        for name, _, blob in self.tools:
            q = os.path.join(b, name)
            with open(q, 'wb') as f: f.write(blob)
            os.chmod(q, 0o755)
        env = {'PATH': b, 'HOME': h, 'XDG_CACHE_HOME': h, 'NO_COLOR': '1', 'LANG': 'C.UTF-8'}
        rec = {'fs': self.scan(w), 'steps': [], 'panics': []}
        for c, stdin in self.cmds:
            argv = [a.replace('%BIN%', b) for a in c['argv']]
            try:
                p = subprocess.run([cli] + argv, cwd=w, env=env, input=stdin if isinstance(stdin, bytes) else stdin.encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60)
                rc, out, err = p.returncode, p.stdout, p.stderr
            except subprocess.TimeoutExpired:
                rec['panics'].append('hang')
                break
            fs = self.scan(w)
            try: text = out.decode()
            except UnicodeDecodeError: text = '\0undecodable'
            cc = {k: v for k, v in c.items() if k != 'argv'}
            step = {'c': cc, 'argv': ' '.join(c['argv']), 'code': rc, 'out': U(text), 'said': bool(err.strip()), 'fs': fs,
                    'stdin': [] if isinstance(stdin, bytes) else [U(stdin)], 'text': U(text), 'json': [], 'tree': []}
            if rc in (101, 134) or rc < 0 or b'panicked at' in err: rec['panics'].append('exit %s: %s' % (rc, argv))
            rec['steps'].append(step)
        shutil.rmtree(d, ignore_errors=True)
        return rec

    def scan(self, w):
        out = []
        for dp, dns, fns in os.walk(w):
            for n in sorted(dns + fns):
                q = os.path.join(dp, n)
                seg = SEG(os.path.relpath(q, w))
                if os.path.islink(q): out.append([seg, 'link', SEG(os.path.relpath(os.path.realpath(q), os.path.realpath(w)))])
                elif os.path.isdir(q): out.append([seg, 'dir', []])
                else:
                    raw = open(q, 'rb').read()
                    try: out.append([seg, 'file', U(raw.decode())])
                    except UnicodeDecodeError: out.append([seg, 'bin', list(raw)])
        return sorted(out)


def settle(rec):
    """What each step wrote, as text, and as JSON and tree where it should be that."""
    before = {json.dumps(x[0]): x for x in rec['fs']}
    for s in rec['steps']:
        now = {json.dumps(x[0]): x for x in s['fs']}
        c = s['c']
        if c['cmd'] == 'file':
            target = (c['json'] or c['output'] or [c['input'] if c['inplace'] else U('-')])[0]
            if c['inplace'] and not c['json']: target = c['input']
            if target != U('-'):
                p = ''.join(map(chr, target))
                q = os.path.normpath(p).split('/')
                k = json.dumps([U(x) for x in q])
                if k in now and now[k][1] == 'link': k = json.dumps(now[k][2])
                s['text'] = now[k][2] if k in now and now[k][1] == 'file' else [-1]
            if c['json'] and s['code'] == 0: s['json'] = read_json(''.join(map(chr, s['text'])) if -1 not in s['text'] else '')
        if c['cmd'] == 'tree' and c['format'] == 'sexp' and s['code'] == 0:
            src = s['stdin'][0] if c['input'] == U('-') else None
            if src is None:
                p = os.path.normpath(''.join(map(chr, c['input']))).split('/')
                x = now.get(json.dumps([U(y) for y in p]))
                if x and x[1] == 'link': x = now.get(json.dumps(x[2]))
                src = x[2] if x else []
            s['tree'] = read_sexp(''.join(map(chr, s['out'])), ''.join(map(chr, src)))
        before = now


def file_cmd(r, **o):
    """A command in file mode."""
    c = dict(cmd='file', input='d.styx', output=None, json=None, inplace=False, compact=False, validate=False, schema=None, format='')
    c.update(o)
    opts = []
    if c['output'] is not None: opts.append([r.choice(['-o', '--output']), c['output']])
    if c['json'] is not None: opts.append(['--json-out', c['json']])
    if c['inplace']: opts.append(['--in-place'])
    if c['compact']: opts.append(['--compact'])
    if c['validate']: opts.append(['--validate'])
    if c['schema'] is not None: opts.append(['--schema', c['schema']])
    r.shuffle(opts)
    return fin(c, [c['input']] + [x for o in opts for x in o])


def fin(c, argv):
    base = dict(cmd='', input='', output=None, json=None, inplace=False, compact=False, validate=False, schema=None, format='')
    base.update(c)
    for k in ('output', 'json', 'schema'): base[k] = [] if base[k] is None else [U(base[k])]
    base['input'] = U(base['input'])
    base['argv'] = argv
    return base


def random_cmd(r):
    x = r.random()
    inp = r.choice(SPELL)
    if x < .72:
        return file_cmd(r, input=inp, output=r.choice(SPELL) if r.random() < .3 else None, json=r.choice(SPELL) if r.random() < .2 else None,
                        inplace=r.random() < .25, compact=r.random() < .3, validate=r.random() < .45, schema=r.choice(SPELL + ['s.styx'] * 12) if r.random() < .25 else None)
    if x < .84:
        f = r.choice(['sexp', 'sexp', 'sexp', 'debug', 'xml'])
        return fin(dict(cmd='tree', input=inp, format=f), ['tree', '--format', f, inp])
    if x < .9: return fin(dict(cmd='show', input=inp), [r.choice(['tokens', 'lexemes', 'events', 'cst']), inp])
    if x < .95:
        t = r.choice(['tool', 'tool2', 'tool3', 'plain'])
        return fin(dict(cmd='extract', input='%BIN%/' + t), ['extract', '%BIN%/' + t])
    return fin(dict(cmd='bad'), r.choice([['d.styx', '--nope'], ['d.styx', '-o'], ['frob'], ['d.styx', 'e.styx'], ['completions', 'csh'], ['gen', 'cobol', 's.styx']]))


def schema_and_docs(r):
    """A schema with documents near it."""
    s, d = gschema.pairs(r, 1)[0]
    return s, d


DECLS = ['./s.styx', 's.styx', '../s.styx', './sub/s.styx', 'no.styx', 'bad.styx', 'dir.d', '"./s.styx"', 'http://x/s', 'https://x/s', '{cli tool}', '{cli tool, id beta}', '{cli tool, id nope}', '{cli nope}', '{id beta}',
         '{cli tool2}', '{cli plain}', '()', '@', '@t"s.styx"', '@x{cli tool}', '{cli @t"tool"}', '{cli tool, id (x)}', './l.styx', '{cli broken}', '{cli tool3, id beta}', '{cli tool3, id alpha}', '{cli tool3, id beta}', '{cli tool3, id Beta}', '{cli tool3}', '{cli tool3, id bet}', '{cli tool3, id ""}']


def random_doc(r, schema_docs):
    x = r.random()
    if x < .3: d = schema_docs[1]
    elif x < .55: d = r.choice(['name x\nport 1', 'name x', 'a 1', 'a.b 1\na.c 2', '', 'x {y 1}\nx.z 2', '@t 1', 'a.b.c 1\na.b.d (1 @ @t"x")\na.e @u{f 1}', '@t"k" 1\n@ 2', '"a\\"b" "\\u{e9}"', 'a <<E\n  x\n  E\n', '/// d\na 1 // c\n'])
    else: d = gen.doc(r) if hasattr(gen, 'doc') else 'a 1'
    if r.random() < .5: d = '@schema ' + r.choice(DECLS[:4] * 4 + DECLS) + '\n' + d
    if r.random() < .1: d += r.choice(['}', '{', '"', ' >', '\n@schema s.styx', 'a 1\na 2'])
    return clean(d)


SCHEMA = 'meta {id alpha, version 1}\nschema {\n@ @object{name @string, port @optional(@int), old @optional(@deprecated("no" @int))}\n}\n'
SCHEMA3 = 'meta {id beta-2, version 1}\nschema {@ @object{z @bool}}'
SCHEMA4 = 'meta {id xbeta, version 1}\nschema {@ @object{@string @bool}}'
SCHEMA2 = 'meta {id beta, version 1}\nschema {@ @object{a @int}}'


def world(r, blobs):
    """Files and tools."""
    s, d = schema_and_docs(r)
    if r.random() < .6: s, d = SCHEMA, r.choice(['name x', 'name x\nport 1', 'port x\nname 1', 'name x\nold 1', 'nam x', 'name x\nold 1\nport z', '@'])
    docs = gen.mixed(r, 3, maxlen=80)
    def doc(): return clean(docs[r.randrange(3)]) if r.random() < .25 else random_doc(r, (s, d))
    files = {'d.styx': ('file', doc()), 'e.styx': ('file', doc()), 's.styx': ('file', clean(s)), 'sub/f.styx': ('file', doc()), 'sub/s.styx': ('file', clean(r.choice([s, SCHEMA2, 'a 1']))),
             'dir.d': ('dir', ''), 'bad.styx': ('bin', bytes([0x61, 0x20, 0xff, 0xfe])), 'l.styx': ('link', r.choice(['d.styx', 'd.styx', 's.styx', 'sub/f.styx'])), 'sub/l.styx': ('link', r.choice(['d.styx', 'sub/f.styx']))}
    return files, blobs


def tools(he, ctx):
    """Binaries with embedded schemas."""
    sets = {'tool': [SCHEMA, SCHEMA2], 'tool2': [SCHEMA2, 'meta {id nope}\nx'], 'tool3': [SCHEMA3, SCHEMA4, SCHEMA2, SCHEMA], 'plain': [], 'broken': ['a {']}
    recs = [{'id': i, 'ts': [U(t) for t in ts]} for i, ts in enumerate(sets.values())]
    out = run_harness(he, ['blob'], recs, ctx.tmp)
    return [(n, ts, b'\x7fNOTELF' + b'\0junk'.join(bytes.fromhex(x) for x in o['blob']) + b'STYX_SCHEMA_V2\0\0tail') for (n, ts), o in zip(sets.items(), out)]


def grid(r):
    """Every combination of the options in file mode on one file set."""
    out = []
    for inp in ['d.styx', '-', 'sub/f.styx', 'l.styx', 'no.styx', 'bad.styx']:
        for o in [None, 'x.styx', '-', './d.styx', 'e.styx', 'no/x.styx', 'dir.d', 'l.styx']:
            for j in [None, 'x.json', '-', 'd.styx', 'dir.d', 'sub/l.styx']:
                for ip in (False, True):
                    for co in (False, True):
                        for v, s in [(False, None), (True, None), (True, 's.styx'), (False, 's.styx'), (True, 'no.styx'), (True, 'sub/s.styx')]:
                            out.append(file_cmd(r, input=inp, output=o, json=j, inplace=ip, compact=co, validate=v, schema=s))
    return out


def run_sessions(ctx, cli, hc, ht, sessions, label, findings=()):
    base = tempfile.mkdtemp(prefix='cli', dir=ctx.tmp)
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        recs = list(ex.map(lambda s: s.run(cli, base), sessions))
    texts, schemas = {}, {}
    for s, rec in zip(sessions, recs):
        settle(rec)
        seen = {json.dumps(x[2]) for x in rec['fs'] if x[1] == 'file'}
        for st in rec['steps']:
            seen |= {json.dumps(x[2]) for x in st['fs'] if x[1] == 'file'}
            seen |= {json.dumps(x) for x in st['stdin']}
        rec['_seen'] = seen
        for t in seen: texts[t] = None
        for _, ts, _ in s.tools:
            for t in ts: schemas[json.dumps(U(t))] = None
    order = list(texts)
    a = run_harness(hc, ['fmt'], [{'id': i, 'cs': json.loads(t), 'style': ''} for i, t in enumerate(order)], ctx.tmp)
    b = run_harness(hc, ['fmt'], [{'id': i, 'cs': json.loads(t), 'style': 'inline'} for i, t in enumerate(order)], ctx.tmp)
    for t, x, y in zip(order, a, b): texts[t] = [json.loads(t), x['fmt'], y['fmt']]
    sorder = list(dict.fromkeys(list(schemas) + [t for t in order if '109, 101, 116, 97' in t or 1]))
    v = run_harness(ht, ['validate'], [{'id': i, 'ss': json.loads(t), 'cs': []} for i, t in enumerate(sorder)], ctx.tmp)
    reads = {t: [json.loads(t), o['validate']['reads']] for t, o in zip(sorder, v) if not o['panics']}
    for i, (s, rec) in enumerate(zip(sessions, recs)):
        seen = rec.pop('_seen')
        ts = [[U(n), [U(t) for t in x], U('%BIN%/' + n)] for n, x, _ in s.tools]
        rec['id'] = i
        rec['env'] = {'fmt': [texts[t] for t in seen], 'reads': [reads[t] for t in dict.fromkeys(list(seen) + [json.dumps(U(t)) for _, x, _ in s.tools for t in x]) if t in reads and reads[t][1]], 'tools': ts}
    ctx.count('sessions_' + label, len(recs))
    ctx.count('commands', sum(len(r['steps']) for r in recs))
    ctx.traces += len(recs)
    mism = tlc_records('TraceCli', recs, ctx)
    done = set()
    for m in mism:
        if m['id'] in done: continue
        done.add(m['id'])
        if m['kind'] in findings and ctx.finding(findings[m['kind']]): continue
        rec = recs[m['id']]
        ctx.violation('%s: %s: expected %s got %s after %s' % (label, m['kind'], str(show(m['exp']))[:200], str(show(m['got']))[:200], [s['argv'] for s in rec['steps']]),
                      {'fs': show(rec['fs']), 'steps': [s['argv'] for s in rec['steps']], 'mismatch': show(m), 'codes': [s['code'] for s in rec['steps']]})
    if recs and len(ctx.samples) < 8:
        ctx.samples.append({'set': label, 'commands': [[s['argv'], s['code']] for s in recs[len(recs) // 2]['steps']]})
