"""Schemas and documents that nearly fit them."""
import itertools

NAMES = ['a', 'b', 'ab', 'abc', 'host', 'hots', 'port', 'Port', 'x', 'é', '1', '-2', 'true', 'k-1', '7']
TYPES = ['A', 'B', 'C', 'Node', 'Opt']
INTS = ['0', '1', '-1', '5', '007', '+3', '-0', '10', '99', '100', '65535', '65536', '9223372036854775808', '170141183460469231731687303715884105727',
        '170141183460469231731687303715884105728', '-170141183460469231731687303715884105729', '1.0', '1e3', '--1', '-', '+', '1_0', '0x1']
FLOATS = ['0', '0.0', '-0.0', '1', '1.5', '-1.5', '2.50', '0.5', '.5', '5.', '01.5', '1e3', '1E-2', '1e', '1e+', '1e400', '-273.15', 'NaN', 'inf', '+1.5', '1.0e2', '99.999', '100', '1e-400', '00', '-']
WORDS = ['x', 'xy', 'xyz', 'hello', '"a b"', '""', 'é', 'éé', '"q\\"q"', 'true', 'false', 'True', 'debug', 'info', 'dbug', '𝄞', '"\\n"', 'r#"x"#', '"@t"', '"1"']


class G:
    def __init__(self, r, names=()):
        self.r, self.names = r, list(names)

    def bounds(self, pool, lo, hi):
        r = self.r
        x = r.random()
        if x < .45: return ''
        a, b = r.choice(pool), r.choice(pool)
        parts = []
        if r.random() < .7: parts.append(lo + ' ' + a)
        if r.random() < .7: parts.append(hi + ' ' + b)
        return '{' + ', '.join(parts) + '}'

    def scalar(self):
        r = self.r
        x = r.randrange(8)
        if x <= 1: return ('string', '@string' + self.bounds(['0', '1', '2', '3', '5'], 'minLen', 'maxLen'))
        if x <= 3: return ('int', '@int' + self.bounds(['0', '1', '-1', '5', '10', '100', '65535', '-5'], 'min', 'max'))
        if x == 4: return ('float', '@float' + self.bounds(['0.0', '1.0', '-1.5', '0.5', '100.0', '2.5', '1e2'], 'min', 'max'))
        if x == 5: return ('bool', '@bool')
        if x == 6: return ('unit', r.choice(['@unit', '@']))
        w = r.choice(['x', '"a b"', '"1"', 'true"'[:4]])
        return ('literal', '@literal"%s"' % w.strip('"'))

    def type(self, d):
        r = self.r
        if d <= 0 or r.random() < .3:
            if self.names and r.random() < .3:
                n = r.choice(self.names + ['Missing'] * (r.random() < .05))
                return ('ref', '@' + n, n)
            if r.random() < .1: return ('any', '@any')
            return self.scalar()
        x = r.randrange(16)
        if x <= 3: return self.object(d)
        if x == 4:
            s = self.type(d - 1); return ('seq', '@seq(%s)' % s[1], s)
        if x == 5:
            s = [self.type(d - 1) for _ in range(r.randint(0, 3))]
            return ('tuple', '@tuple(%s)' % ' '.join(t[1] for t in s), s)
        if x == 6:
            s = [self.type(d - 1) for _ in range(r.choice([1, 1, 2, 2, 2, 3, 0]))]
            if len(s) == 2 and r.random() < .7: s[0] = r.choice([('int', '@int'), ('string', '@string{maxLen 2}'), ('bool', '@bool'), ('union', '@union(@string @unit)', []), ('union', '@union(@int @unit)', [])])
            return ('map', '@map(%s)' % ' '.join(t[1] for t in s), s)
        if x <= 8:
            s = [self.type(d - 1) for _ in range(r.choice([1, 2, 2, 3, 0] if r.random() < .3 else [2]))]
            return ('union', '@union(%s)' % ' '.join(t[1] for t in s), s)
        if x == 9:
            s = self.type(d - 1); return ('optional', '@optional(%s)' % s[1], s)
        if x <= 11:
            vs = r.sample(['ok', 'err', 'x', 'eq', 'info', 'Ok'], r.randint(1, 4))
            fs = []
            for v in vs:
                if r.random() < .3: fs.append((v, None)); continue
                fs.append((v, self.type(d - 1) if r.random() < .6 else self.scalar()))
            return ('enum', '@enum{%s}' % ', '.join(v + ('' if t is None else ' ' + t[1]) for v, t in fs), fs)
        if x == 12:
            s = self.scalar() if r.random() < .8 else self.type(d - 1)
            vs = r.sample(WORDS + INTS[:8] + ['@t', '@', '(a)'], r.randint(0, 4))
            return ('oneof', '@one-of(%s (%s))' % (s[1], ' '.join(vs)), s, vs)
        if x == 13:
            s = self.type(d - 1); return ('default', '@default(%s %s)' % (r.choice(WORDS + INTS[:5]), s[1]), s)
        if x == 14:
            s = self.type(d - 1); return ('deprecated', '@deprecated("old" %s)' % s[1], s)
        s = self.type(d - 1); return ('flatten', '@flatten(%s)' % s[1], s)

    def object(self, d):
        r = self.r
        fs = []
        for n in r.sample(NAMES, r.choice([0, 1, 1, 2, 2, 3, 4])):
            if self.names and r.random() < .12:
                t = r.choice(self.names); fs.append((n, ('flatten', '@flatten(@%s)' % t, ('ref', '@' + t, t))))
            else: fs.append((n, self.type(d - 1)))
        x = r.random()
        pats = []
        if x < .25: pats = ['@']
        elif x < .45: pats = [r.choice(['@string', '@int', '@bool', '@float', '@any', '@unit'] + ['@' + n for n in self.names])]
        elif x < .55: pats = r.sample(['@string', '@int', '@bool', '@', '@float'], 2)
        for p in pats: fs.append((p, self.type(d - 1)))
        r.shuffle(fs)
        doc = lambda: '/// doc\n' if r.random() < .05 else ''
        return ('object', '@object{\n%s}' % ''.join(doc() + n + ' ' + t[1] + '\n' for n, t in fs), fs)


def schema(r, depth):
    names = r.sample(TYPES, r.randint(0, 3))
    g = G(r, names)
    defs = {n: (g.object(depth) if r.random() < .5 else g.type(depth)) for n in names}
    root = g.object(depth) if r.random() < .85 else g.type(depth)
    ents = ['@ ' + root[1]] + [n + ' ' + t[1] for n, t in defs.items()]
    if r.random() < .02: ents = ents[1:]
    r.shuffle(ents)
    text = 'meta {id x, version 2026-01-01}\nschema {\n' + '\n'.join(ents) + '\n}'
    return text, root, defs


def split(body):
    """The entries of a body of one line, which commas separate."""
    out, depth, cur, quoted, i = [], 0, '', False, 0
    while i < len(body):
        c = body[i]
        if c == '\\' and quoted: cur += body[i:i + 2]; i += 2; continue
        if c == '"': quoted = not quoted
        if not quoted: depth += (c in '({') - (c in ')}')
        if c == ',' and depth == 0 and not quoted: out.append(cur.strip()); cur = ''
        else: cur += c
        i += 1
    return out + [cur.strip()] if cur.strip() else out


class D:
    """Documents for a schema; wrong with probability w at each place."""

    def __init__(self, r, defs, w):
        self.r, self.defs, self.w = r, defs, w

    def wrong(self):
        return self.r.choice(['1', 'x', '@', '()', '{}', '@ok', '@t', '(1 x)', '{a 1}', '@err{a 1}', '"a b"', 'true', '@x"1"', '@eq(1)', '@a/@b', 'a>1', '@ok@', '-2', '0.5', '{@ 1}', '{@int 1}'])

    def val(self, t, d=0):
        r = self.r
        if t is None: return '@'
        if d > 6 or r.random() < self.w: return self.wrong()
        k = t[0]
        if k == 'string': return r.choice(WORDS + ['5'])
        if k == 'int': return r.choice(INTS[:10] if r.random() < .6 else INTS)
        if k == 'float': return r.choice(FLOATS)
        if k == 'bool': return r.choice(['true', 'false', 'false', '"true"', 'yes'])
        if k == 'unit': return '@'
        if k == 'any': return self.wrong()
        if k == 'literal': return r.choice([t[1].split('@literal')[1], 'x', '1'])
        if k == 'ref': return self.val(self.defs.get(t[2]), d + 1)
        if k == 'object': return '{' + self.body(t, d) + '}'
        if k == 'seq': return '(' + ' '.join(self.val(t[2], d + 1) for _ in range(r.randint(0, 3))) + ')'
        if k == 'tuple':
            items = [self.val(s, d + 1) for s in t[2]]
            if r.random() < .1: items = items[1:]
            if r.random() < .1: items.append('x')
            return '(' + ' '.join(items) + ')'
        if k == 'map':
            n = r.randint(0, 3)
            ks = r.sample(NAMES + ['1', '22', '@', '"a b"'][:4], n)
            vt = t[2][-1] if t[2] else None
            return '{' + ', '.join(q + ' ' + self.val(vt, d + 1) for q in dict.fromkeys(ks)) + '}'
        if k == 'union': return self.val(r.choice(t[2]) if t[2] else None, d + 1)
        if k == 'optional': return '@' if r.random() < .15 else self.val(t[2], d + 1)
        if k == 'enum':
            v, s = r.choice(t[2])
            x = r.random()
            if x < .2: return self.val(s, d + 1) if s else v
            if x < .35: return '@' + v
            if s is None: return '@' + v + ('@' if x < .4 else '')
            p = self.val(s, d + 1)
            return '@' + v + p if p[:1] in '{("@' or p.startswith('r#') else '@' + v + '"' + p + '"'
        if k == 'oneof':
            vs = [v for v in t[3]]
            return r.choice(vs) if vs and r.random() < .7 else self.val(t[2], d + 1)
        return self.val(t[2], d + 1)         # default, deprecated, flatten

    def fields(self, t, d, seen=()):
        out = []
        for n, s in t[2]:
            if n.startswith('@'):
                for q in self.r.sample(NAMES + ['hst', 'abx', 'zz', '"q q"', '@'], self.r.randint(0, 2)): out.append((q, s))
                continue
            if s[0] == 'flatten':
                o = s[2]
                if o[0] == 'ref' and o[2] not in seen: o2 = self.defs.get(o[2])
                else: o2 = None
                if o2 and o2[0] == 'object' and self.r.random() < .85:
                    out += self.fields(o2, d, tuple(seen) + (o[2],)); continue
            out.append((n, s))
        return out

    def body(self, t, d=0):
        r = self.r
        ents, used = [], set()
        for n, s in self.fields(t, d):
            x = r.random()
            if x < self.w or (s and s[0] in ('optional', 'default') and x < .4): continue
            if x > 1 - self.w / 2: n = r.choice(NAMES + ['@', '@t', '"q"', 'hos', 'prot'])
            if n in used: continue
            used.add(n)
            ents.append(self.entry(n, s, d))
        if r.random() < self.w:
            n = r.choice(NAMES + ['hsot', 'por', 'zz', 'A', '@', '@t', '@string', 'É', 'Host'])
            if n not in used: ents.append(n + ' ' + self.wrong())
        r.shuffle(ents)
        return ', '.join(ents)

    def entry(self, n, t, d):
        """An entry; now and then an object is written as dotted entries."""
        o = t
        for _ in range(3):
            if o and o[0] == 'ref': o = self.defs.get(o[2])
            elif o and o[0] in ('optional', 'deprecated', 'default'): o = o[2]
        if o and o[0] in ('object', 'map') and d < 5 and n[:1] not in '@' and self.r.random() < .4:
            sub = self.body(o, d + 1) if o[0] == 'object' else self.val(o, d)[1:-1]
            parts = split(sub)
            if parts and all(q[:1] not in '@{(' and not q.startswith('r#') and '>' not in q.split(' ')[0] for q in parts):
                return ', '.join(n + '.' + q for q in parts)
        return n + ' ' + self.val(t, d + 1)

    def doc(self, root):
        t = root
        for _ in range(5):
            if t and t[0] == 'ref': t = self.defs.get(t[2])
            elif t and t[0] in ('optional', 'deprecated', 'default', 'flatten'): t = t[2]
            elif t and t[0] == 'union' and t[2]: t = self.r.choice(t[2])
        if t and t[0] == 'object': return self.body(t).replace(', ', self.r.choice(['\n', '\n\n']))
        if t and t[0] == 'map': return self.val(t)[1:-1].replace(', ', '\n') if self.val(t)[:1] == '{' else 'a 1'
        return self.r.choice(['', 'a 1', 'a 1\nb 2', '@ 1', 'x {y 1}'])


def pairs(r, n, per=4):
    out = []
    while len(out) < n:
        text, root, defs = schema(r, r.choice([1, 1, 2, 2, 3]))
        for _ in range(per):
            out.append((text, D(r, defs, r.choice([0, .03, .1, .3])).doc(root)))
    return out[:n]


# every simple type against every simple value, as the type of a field
T0 = ['@string', '@string{minLen 1, maxLen 2}', '@string{minLen 2}', '@int', '@int{min 1, max 10}', '@int{min -5}', '@int{max 5}', '@float', '@float{min 0.5, max 2.5}', '@float{min -1.5}', '@bool', '@unit', '@any', '@',
      '@literal"x"', '@one-of(@string (x "a b" @t))', '@one-of(@int (1 2))', '@one-of(@any ())', '@one-of(@any (1 @))', '@object{}', '@object{a @int}', '@object{a @optional(@int)}', '@object{@ @int}', '@object{@string @int}', '@object{@int @string, a @bool}',
      '@object{@int @int, @string @string}', '@object{@bool @int, @ @string}', '@object{@unit @int}', '@object{@N @int}', '@object{@E @int}', '@seq(@int)', '@tuple()', '@tuple(@int @string)', '@map(@int)', '@map(@int @string)', '@map(@union(@string @unit) @any)', '@map()', '@union()',
      '@union(@int @bool)', '@union(@object{a @int} @seq(@any))', '@enum{ok, err @string}', '@enum{x @int}', '@enum{x @int{max 0}, y @int, ok @object{a @int}}', '@enum{ok @optional(@int), eq @seq(@int), b @bool, t @unit}', '@enum{f @float, err @union(@unit @string)}',
      '@optional(@int)', '@default(1 @int)', '@deprecated("d" @int)', '@optional(@deprecated("d" @string))', '@union(@deprecated("d" @int) @string)', '@flatten(@O)', '@flatten(@N)', '@N', '@O', '@L', '@U', '@R', '@M', '@Missing', '@deprecated("d" @optional(@int))', '@optional(@L)', '@K']
V0 = ['', 'x', 'xyz', '""', '"a b"', 'é', '1', '10', '11', '-6', '+1', '007', '1.5', '2.50', '2.6', '.5', '1e1', 'NaN', 'true', '"false"', '@', '@t', '@x', '@ok', '@err', '@ok@', '@err"m"', '@x"1"', '@y"7"', '@ok{a 1}', '@ok{a x}', '@eq(1 x)', '@t{a 1}',
      '@t(1 2)', '()', '(1)', '(1 x)', '(x 1)', '(1 2 3)', '{}', '{a 1}', '{a x}', '{a @}', '{b 1}', '{1 1}', '{1 x}', '{@ 1}', '{@t 1}', '{true 1}', '{true x, 2 y}', '{a true, 3 x}', '{aa 1, a 1}', '{next {next {}}}', '{next {nxt {}}}', '@b"true"', '@f"1.5"', '{a 1, @ 2, "q" x}']
DEFS = '''N @optional(@int)
O @object{a @int, b @optional(@string)}
L @L
U @union(@U @int)
R @object{next @optional(@R)}
M @N
E @enum{ok, err}
K @deprecated("gone" @N)'''


def grid():
    return [('meta {id x, version 1}\nschema {\n@ @object{f %s}\n%s\n}' % (t, DEFS), 'f ' + v if v else '') for t, v in itertools.product(T0, V0)]
